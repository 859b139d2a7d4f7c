"""A grammar that does nothing leaves the stream as it is, whatever the window settings."""
import re
from vlib.pbt import Sub, Info, Violation, Discard
from vlib import gen, rich
from vlib.common import must, case

TECHNIQUE = "property-based testing: generated streams in normal form run with generated grammars in which nothing can match, under generated window settings; the stream itself is the oracle"
NOTE = "random streams, grammars and option combinations"

WF = ['a', 'cats', 'A', 'ø', 'two words', 'x<y', 'it"s', '😀', '日本', '.', 'b', '$,', '#', ';', 'a/b', '"', '^', '<>', 'sg', "o'clock", 'æ\u0301', ' ']
BF = ['a', 'cat', 'Cat', 'two words', 'it"s', '😀', '', '\\', 'b.c', '.', '日本', '#', '<b>x', 'x/y', 'ß']
TG = ['N', 'V', 'sg', 'pl', '<h>', '<W:5>', '<W=-3>', '<', '@sub', '@obj', '§ag', '"q"', '"<w>"', '1', '#', '->', 'æ', '😀', '<😀>', 'A<B', '/r/', '(x)', '*', '|', '+', '^', 'N>', '_S_', 'x\u200by', '$$', '&&X', '%', '<x:y:z>', 'VSTR:a', 'ADD', '>>>x', 'T:x']
TX = ['text', '<s>', '</s>', '# comment', '"half', 'a  b', ' lead', ';\t"x" N', '\u00a0x', '<STREAMCMD:NOSUCH>', '☃', '%d %s', '""', '"< >', '<p id="1">', '\\', '"<>']


class S:
    """A stream as a list of lines, and which lines are cohorts."""
    def __init__(self):
        self.lines, self.ncoh, self.labels = [], 0, set()


def tags(src, pool, hi):
    out = []
    for _ in src.many(0, hi, 60):
        t = src.c(pool)
        if t not in out:
            out.append(t)
    # mapped tags come last
    return [t for t in out if not t.startswith('@')] + [t for t in out if t.startswith('@')][:1]


def stream(src, cfg):
    s = S()
    pool = [src.c(TG) for _ in range(8)] if src.p(80) else TG
    L = s.lines
    nw = src.r(1, 6)
    long = lambda t: t * src.c([85, 127, 128, 170, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 2047, 2048, 3000]) if t != ' ' and t[:2] != '"<' and src.p(cfg.get('long', 0)) else t
    if src.p(cfg['text']):
        for _ in src.many(1, 2, 40):
            L.append(src.c(TX))
            s.labels.add('leading text')
    base = 0
    for w in range(nw):
        nc = src.w([(10, src.r(0, 6)), (1, src.r(7, 30))])
        n = nc + 1
        for k in range(n):
            wf = '.' if k == nc else long(src.c(WF))
            if wf == '.' and k != nc:
                wf = ','
            head = '"<%s>"' % wf
            if src.p(10):
                st = tags(src, [t for t in pool if t[0] != '@'] or ['N'], 3)
                if st:
                    head += ' ' + ' '.join(st)
                    s.labels.add('static tags')
            L.append(head)
            s.ncoh += 1
            dep = ''
            if cfg['deps']:
                par = src.r(0, n)
                if par == k + 1 and src.p(50):
                    par = 0
                a, b = k + 1, par
                dep = ' #%d->%d' % (a, b)
                s.labels.add('dependencies')
            seen = set()
            nr = src.w([(10, 1), (6, 2), (3, 3), (1, 9)])
            if cfg['empty'] and src.p(8):
                nr = 0
                s.labels.add('no readings')
            for _ in range(nr):
                sub, lines = 0, []
                while True:
                    tg = tags(src, pool, 5)
                    if tg and src.p(30):
                        tg[0] = long(tg[0]) if tg[0] in ('N', 'V', 'æ', '😀') else tg[0]
                    lines.append('\t' * (sub + 1) + '"%s"' % long(src.c(BF)) + ''.join(' ' + t for t in tg) + dep)
                    sub += 1
                    if not src.p(20) or sub > 4:
                        break
                    s.labels.add('sub-readings')
                # analyses that only differ in mapped tags or order are joined, which is not what is tested
                key = tuple(tuple(sorted(set(t for t in re.split(r' (?=[^ ])', l.strip()) if not t.startswith('@')))) for l in lines)
                if key in seen:
                    continue
                if any(l.strip().split(' ')[0] == '""' and False for l in lines):
                    continue
                seen.add(key)
                L += lines
            if src.p(cfg['text']):
                for _ in src.many(1, 3, 40):
                    L.append(long(src.c(TX)))
                    s.labels.add('text')
        if src.p(60):
            L.append('')
        if src.p(cfg['cmds']):
            L.append('<STREAMCMD:FLUSH>')
            s.labels.add('flush')
    return s


RULES = ['SELECT {z} IF ({p} {a}) ;', 'REMOVE {z} ;', 'IFF {z} IF ({p} {a}) ;', 'ADD (zz8) {a} + {z} ;', 'MAP (@zz8) {z} ;', 'SUBSTITUTE ({t}) (zz8) {z} ;', 'SUBSTITUTE (zz7) ({t}) (*) ;', 'REPLACE (zz8) {a} IF (0 {z}) ;',
         'APPEND ("zz8" zz8) {z} ;', 'COPY (zz8) {z} ;', 'SETPARENT {z} TO (1 (*)) ;', 'SETCHILD {a} TO (0* {z}) ;', 'ADDRELATION (zz8) {z} TO (1 (*)) ;', 'SETRELATIONS (zz8) (zz7) {a} TO (0* {z}) ;', 'REMRELATION (zz8) {z} TO (1 (*)) ;',
         'MOVE {z} AFTER (1 (*)) ;', 'SWITCH {a} WITH (1* {z}) ;', 'REMCOHORT {z} ;', 'ADDCOHORT ("<zz8>" "zz8") AFTER {z} ;', 'SPLITCOHORT ("<z1>" "z1" "<z2>" "z2") {z} ;', 'MERGECOHORTS ("<zz8>" "zz8") {z} WITH (1 (*)) ;', 'COPYCOHORT (zz8) {z} TO AFTER (-1 (*)) ;',
         'DELIMIT {z} ;', 'EXTERNAL ONCE "/bin/false" {z} ;', 'UNMAP {z} ;', 'PROTECT {z} ;', 'SETVARIABLE (zz8) (zz7) {z} ;', 'REMVARIABLE (zz8) {z} ;', 'JUMP (there) {z} ;', 'REMPARENT {z} ;', 'SWITCHPARENT {z} ;',
         'WITH {z} {{ ADD (zz8) (*) ; REMOVE (*) ; }} ;', 'RESTORE (*) {z} ;', 'SELECT UNSAFE {z} ;', 'REMOVE UNSAFE {a} IF (1* {a} LINK *1 {z}) ;', '"<zz>" REMOVE (*) ;', 'SELECT SUB:* {z} ;', 'ADD ENCL_FINAL (zz8) {z} ;', 'REMOVE {a} IF (p {z}) ;', 'REMOVE {a} IF (r:zz8 {z}) ;']


def grammar(src, cfg):
    h = ['DELIMITERS = "<.>" ;']
    if src.p(50):
        h.append('SOFT-DELIMITERS = "<,>" "<b>" sg ;')
    if src.p(10):
        h.append('SUBREADINGS = LTR ;')
    if src.p(15):
        h.append('OPTIONS += addcohort-attach ;')
    A = ['N', 'V', 'sg', '*', '<h>', '"a"', '/^s/r', '"<A>"i', '>>>', '<<<', '@sub', '<W>3>']
    for k in ('BEFORE-SECTIONS', 'SECTION', 'SECTION', 'AFTER-SECTIONS', 'NULL-SECTION'):
        if src.p(60):
            h.append(k)
            if src.p(20):
                h.append('ANCHOR there%d ;' % len(h))
            for _ in src.many(0, 4, 55):
                h.append(src.c(RULES).format(z=src.c(['(zz9)', '(zz9 N)', '("zz9")', '("<zz9>")', '(/zz9/r)', '((*) - (*))' if 0 else '(N) - (*)', '("zz9"i)', '(VAR:zz9)', '(<zz9>3>)']), a='(%s)' % src.c(A), t=src.c(['N', 'sg', '*', '@sub']), p=src.c(['-1', '1*', '-1*', '**1', '0', '1C', 'NOT 1', '-2', '*-1W', '0*', 'NEGATE 1', '1*>'])))
    if any('there' in l and l.startswith('JUMP') for l in h):
        h.append('SECTION\nANCHOR there ;\nREMOVE (zz9) ;')
    return '\n'.join(h) + '\n'


def options(src, cfg, cuts=True):
    a = []
    def on(p, *o):
        if src.p(p):
            a.extend(o)
    on(30, '--num-windows', str(src.c([0, 1, 2, 5, 20])))
    if cuts:
        on(40, '--soft-limit', str(src.c([1, 2, 3, 5, 10])))
        on(40, '--hard-limit', str(src.c([1, 2, 3, 5, 8, 20])))
        on(10, '--dep-delimit', str(src.c([1, 3, 10])))
    on(15, '--always-span')
    on(15, '--split-mappings')
    on(15, '--no-magic-readings')
    on(15, '--no-pass-origin')
    on(15, '--unsafe')
    on(10, '--max-runs', '1')
    on(10, '--dry-run')
    on(10, '--trace')
    on(5, '--no-mappings')
    on(5, '--no-corrections')
    on(5, '--sections', '1')
    on(5, '--unique-tags')
    on(5, '--ordered')
    on(5, '--prefix', '@')
    return a


def lines_of(t):
    out = []
    for l in t.split('\n'):
        if not l.strip(' \t\r\n'):
            continue
        l = l.rstrip(' \t\r')
        m = re.match(r'(\t+".*?)( #\d+->\d+)(.*)$', l)
        if m:       # goes last if the program looks at it, else stays before mapped tags
            l = m[1] + m[3] + m[2]
        out.append(l)
    return out


def passthrough(src, env):
    cfg = dict(text=src.c([0, 15, 40]), cmds=src.c([0, 0, 10]), deps=src.p(30), empty=src.p(20), rels=0, long=src.c([0, 0, 3]))
    if cfg['deps']:
        cfg['empty'] = False
    s = stream(src, cfg)
    g = grammar(src, cfg)
    args = options(src, cfg, not cfg['deps'])
    if cfg['empty'] and '--dep-delimit' in args:
        raise Discard()
    text = '\n'.join(s.lines) + '\n'
    d = env.d
    p = d.write('g.cg3', g)
    r = d.run('vislcg3', ['-g', p] + args, text)
    out = must(r, 'vislcg3', g, text, args)
    a, b = lines_of(text), lines_of(out)
    if a != b:
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        raise Violation('line %d is %r, was %r' % (i + 1, b[i] if i < len(b) else None, a[i] if i < len(a) else None), 'changed', case(g, text, args) + '--- output\n' + out)
    return Info(s.ncoh > 1, text + g, sorted(s.labels) + [x for x in args if x.startswith('--')], text[:600])


DEPRULES = ['SETPARENT (zz9) TO (1 (*)) ;', 'SETCHILD (*) TO (0* (zz9)) ;', 'REMPARENT (zz9) ;', 'SPLITCOHORT ("<z1>" "z1" "<z2>" "z2") (zz9) ;', 'REMCOHORT WITHCHILD (*) (zz9) ;', 'SELECT (zz9) IF (p (*)) ;']
RELRULES = ['ADDRELATION (zz8) (zz9) TO (1 (*)) ;', 'SETRELATIONS (zz8) (zz7) (*) TO (0* (zz9)) ;', 'REMRELATION (r1) (zz9) TO (1 (*)) ;', 'MERGECOHORTS ("<zz8>" "zz8") (zz9) WITH (1 (*)) ;', 'REMOVE (zz9) IF (r:r1 (*)) ;']


def read(text, absolute):
    """Cohorts with their readings, and whom the dependencies and relations point to."""
    coh, me, win = [], {}, -1
    for l in lines_of(text):
        if l.startswith('"<'):
            coh.append(dict(head=l, readings=[], dep=None, rel=set(), id=None, self=None))
            continue
        c = coh[-1] if coh else None
        if not l.startswith('\t'):
            if c is None:
                coh.append(dict(head=None, readings=[], dep=None, rel=set(), id=None, self=None))
                c = coh[-1]
            c['readings'].append(l)
            continue
        tg = l.split(' ')
        keep = []
        for t in tg:
            m = re.match(r'#(\d+)->(\d+)$', t)
            if m:
                c['self'], c['dep'] = int(m[1]), int(m[2])
                continue
            m = re.match(r'ID:(\d+)$', t)
            if m:
                c['id'] = int(m[1])
                continue
            m = re.match(r'R:([a-z]\w*):(\d+)$', t)
            if m:
                c['rel'].add((m[1], int(m[2])))
                continue
            keep.append(t)
        c['readings'].append(' '.join(keep))
    ids = {c['id']: i for i, c in enumerate(coh) if c['id'] is not None}
    if absolute:
        nums = {c['self']: i for i, c in enumerate(coh) if c['self'] is not None}
    for i, c in enumerate(coh):
        c['rel'] = set((n, ids.get(k, 'none')) for n, k in c['rel'])
        if c['self'] is None:
            continue
        if absolute:
            c['dep'] = nums.get(c['dep'], 'root')
    return coh


def structure(src, env):
    """Dependencies and relations that the program keeps track of."""
    cfg = dict(text=src.c([0, 15]), cmds=0, deps=src.p(60), empty=False)
    s = stream(src, dict(cfg, deps=False))
    if any(l.startswith('"<') and '>"' not in l for l in s.lines):
        raise Discard()
    h = ['DELIMITERS = "<.>" ;', 'SOFT-DELIMITERS = "<,>" "<a>" ;', 'SECTION']
    rels = not cfg['deps'] or src.p(40)
    if cfg['deps']:
        h.append(src.c(DEPRULES))
    if rels:
        h.append(src.c(RELRULES))
    g = '\n'.join(h) + '\n'
    # dependencies hold within a window, so no window is cut in two
    args = options(src, cfg, not cfg['deps'])
    if '--dry-run' in args:
        args.remove('--dry-run')
    # numbers: cohorts of a sentence from 1, or on through the text
    L, n, sent = list(s.lines), 0, [[]]
    heads = [i for i, l in enumerate(L) if l.startswith('"<') and i + 1 < len(L) and l not in TX]
    for i in heads:
        sent[-1].append(i)
        if L[i].startswith('"<.>"'):
            sent.append([])
    sent = [x for x in sent if x]
    add = {i: '' for i in heads}
    want_dep, want_rel = {}, {i: set() for i in heads}
    if cfg['deps']:
        for x in sent:
            for k, i in enumerate(x):
                par = src.r(0, len(x))
                if par == k + 1:
                    par = 0
                add[i] += ' #%d->%d' % (k + 1, par)
                want_dep[i] = x[par - 1] if par else 'root'
    if rels:
        ahead = int(args[args.index('--num-windows') + 1]) if '--num-windows' in args else 2
        cut = any(x in args for x in ('--soft-limit', '--hard-limit', '--dep-delimit'))
        which = {i: k for k, x in enumerate(sent) for i in x}
        order = {i: k for k, i in enumerate(heads)}
        def reach(i, j):
            return order[j] - order[i] if cut else which[j] - which[i]
        ids = {}
        nid = src.c([1, 5, 100, 70000])
        for i in heads:
            nid += src.r(1, 3)
            if src.p(50):
                ids[i] = nid
        if ids:
            hs = sorted(ids)
            for i in hs:
                add[i] += ' ID:%d' % ids[i]
                for _ in src.many(0, 3, 35):
                    k = src.r(0, len(hs) - 1)
                    j = src.c(hs)
                    # only the windows around are kept in mind
                    if abs(reach(i, j)) > ahead:
                        continue
                    nm = src.c(['r1', 'r2', 'dis'])
                    if (nm, j) not in want_rel[i]:
                        want_rel[i].add((nm, j))
                        add[i] += ' R:%s:%d' % (nm, ids[j])
    out, cur = [], None
    for i, l in enumerate(L):
        if i in add:
            cur = i
        out.append(l + (add[cur] if cur is not None and l.startswith('\t') and l.strip() else ''))
    text = '\n'.join(out) + '\n'
    args += ['--dep-absolute'] if cfg['deps'] else []
    d = env.d
    p = d.write('g.cg3', g)
    o = must(d.run('vislcg3', ['-g', p] + args, text), 'vislcg3', g, text, args)
    A, B = read('\n'.join(L), False), read(o, True)
    def bad(msg):
        raise Violation(msg, 'changed', case(g, text, args) + '--- output\n' + o)
    if len(A) != len(B):
        bad('%d cohorts became %d' % (len(A), len(B)))
    lead = 1 if A and A[0]['head'] is None else 0
    num = {h: i + lead for i, h in enumerate(heads)}
    for i, (x, y) in enumerate(zip(A, B)):
        if x['head'] != y['head'] or x['readings'] != y['readings']:
            bad('cohort %d differs: %r became %r' % (i + 1, (x['head'], x['readings']), (y['head'], y['readings'])))
    for h in heads:
        y = B[num[h]]
        if cfg['deps']:
            w = want_dep[h] if want_dep[h] == 'root' else num[want_dep[h]]
            if y['dep'] != w:
                bad('parent of cohort %d is %s, was %s' % (num[h] + 1 - lead, y['dep'], w))
        if rels:
            w = set((n, num[j]) for n, j in want_rel[h])
            if y['rel'] != w:
                bad('relations of cohort %d are %s, were %s' % (num[h] + 1 - lead, sorted(y['rel']), sorted(w)))
    return Info(len(heads) > 1, text + g, sorted(s.labels) + [x for x in args if x.startswith('--')], text[:600])


SUBS = [
    Sub("structure", structure, 5000, 300000, "the stream has two cohorts or more"),
    Sub("passthrough", passthrough, 6000, 400000, "the stream has two cohorts or more"),
]
