"""C08: Apertium streams through cg-proc and cg-conv."""
import re
from vlib import gen, rich
from vlib.common import must, case
from vlib.pbt import Sub, Violation, Discard, Info
from checks.C05 import Raw, base

TECHNIQUE = 'property-based testing: generated Apertium streams are built piece by piece together with the text that must come out (pass-through, option by option), and a differential of cg-proc against vislcg3 on the same analyses in both notations'
NOTE = 'Tags made of reserved characters, escaped + and # and tags in front of the lemma are not generated. Exploration only.'

SPECIAL = '^\\/$[]{}<>'
NORM = ['a', 'b', 'hus', 'X', 'é', 'Ø', 'ß', '☃', '😀', ' ', 'å', '1', '.', ',', ';', ':', '"', '(', ')', '=', '-', "'", '%', '!', '?', '|', '~', 'İ']
WFX = ['#', '+', '*', '&']


def esc(s, at=False):
    return ''.join('\\' + c if c in SPECIAL or (at and c == '@') else c for c in s)


def word(src, extra=(), hi=4, special=14):
    """Characters as meant, not as written."""
    out = ''
    for _ in src.many(1, hi, 60):
        k = src.r(0, 99)
        if k < special:
            out += src.c(SPECIAL)
        elif k < special + 4 and extra:
            out += src.c(extra)
        else:
            out += src.c(NORM)
    return out


PIECES = [' ', ' ', ' ', '\n', ', ', 'x', 'é☃ ', '\\^', '\\$', '\\[', '\\]', '\\\\', '\\@', '\\/', '/', '<b>', '{', '[<b>]', '[x ^ $ /y]', '[a\\]b]', '[\\[c]', '[ ]', '[]', '[^hus/hus<n>$]', '[\n]', '[<STREAMCMD:SETVAR:v1>]',
          '[<STREAMCMD:REMVAR:v1>]', '[<STREAMCMD:SETVAR:v1=x,v2>]', '[{#]', '😀', '"', '; ', '[a\\]]']


def blank(src, lo=0):
    return ''.join(src.c(PIECES) for _ in src.many(lo, 4, 45))


def tags(src, hi=3):
    pool = ['n', 'sg', 'pl', 'p3', 'vblex', 'é', 'a.b', 'x:y', '1', 'W5', 'n', 'pr_es', '#x', 'k=v', 'a+b', 'x y', 'm#n', '*', '☃', '%']
    out = [src.c(pool) for _ in src.many(0, hi, 60)]
    if src.p(10):
        out.append(src.c(['@SUBJ→', '@x', '@<obj']) if False else src.c(['@SUBJ→', '@x']))
    return out


class Part:
    def __init__(self, src, at):
        self.lemma = word(src, ('*', '&') + (('@',) if at else ()))
        if at and src.p(70):
            self.lemma = '@' + self.lemma
        self.multi = ''
        self.late = False
        if src.p(18):
            self.multi = '# ' + word(src, (), 3, 10)
            self.late = src.p(40)
        self.tags = tags(src)
        self.at = at

    def written(self):
        l, m = esc(self.lemma, self.at), esc(self.multi, self.at)
        t = ''.join('<%s>' % t for t in self.tags)
        return l + t + m if self.late else l + m + t

    def key(self):
        return (self.lemma + self.multi, tuple(sorted(set(self.tags))))


def show(parts, mode):
    """What is printed for a reading."""
    out = []
    for i, p in enumerate(parts):
        l = p.lemma + p.multi
        if mode.get('case') == 'upper':
            l = l.upper()
        elif mode.get('case') == 'title' and i == 0:
            l = l[0].upper() + l[1:]
        l = esc(l, p.at)
        if mode.get('surface'):
            out.append(l)
        else:
            out.append(l + ''.join('<%s>' % t for t in p.tags))
    return '+'.join(out)


def through(src, env):
    d = env.d
    tool = src.w([(7, 'cg-proc'), (2, 'cg-conv')])
    mode = {}
    args = []
    casing = False
    if tool == 'cg-proc':
        if src.p(15):
            args.append('-n')
            mode['nowf'] = True
        if src.p(12):
            args.append('-1')
            mode['first'] = True
        if src.p(10):
            args.append('-g')
            mode['surface'] = True
        if src.p(12):
            args.append('-w')
            casing = True
        if src.p(10):
            args.append('-z')
        if src.p(8):
            args += ['-s', '1']
        if src.p(6) and not mode.get('surface'):
            args.append('-t')
    inp, want = '', ''
    ntok = 0
    marks = set()
    for _ in src.many(1, 3, 30):
        lead = blank(src)
        inp += lead
        want += lead
        for _ in src.many(0, 6, 80):
            ntok += 1
            wb = ''
            if src.p(12):
                wb = src.c(['[[t:b:abc]]', '[[t:i:123]]', '[[w]]', '[[t:a:x; t:b:y]]'])
                marks.add('wordbound')
            at = src.p(6)
            wf = word(src, WFX)
            if at:
                wf = '@' + wf
                marks.add('at')
            if casing:
                wf = src.c([wf, 'HUS', 'Hus', 'X', 'ÆØ', 'hus', 'HuS', 'É', 'A b'])
                at = wf[0] == '@'
            st = tags(src, 2) if src.p(12) else []
            st = [t for t in st if t[0] != '@']
            st = [t for i, t in enumerate(st) if t not in st[:i]]
            if st:
                marks.add('static')
            rds, seen = [], set()
            for _ in src.many(0 if src.p(12) else 1, 3, 45):
                parts = [Part(src, at) for _ in src.many(1, 3, 18)]
                k = tuple(p.key() for p in parts)
                if k in seen:
                    continue
                seen.add(k)
                rds.append(parts)
                if len(parts) > 1:
                    marks.add('joined')
                if any(p.multi for p in parts):
                    marks.add('multiword')
            mode['case'] = None
            if casing:
                al = [c for c in wf if c.isalpha()]
                up = [c for c in wf if c.isupper()]
                if len(wf) != len(wf.encode('utf-16-le')) // 2 or any(not c.isascii() and c not in 'éØåÆÉ' for c in wf):
                    raise Discard()
                if any(c in 'ßİ' or ord(c) > 0xffff for r in rds for p in r for c in p.lemma + p.multi):
                    raise Discard()
                if len(up) == len(al) and len(up) >= 2:
                    mode['case'] = 'upper'
                elif wf[0].isupper() and len(up) == 1:
                    mode['case'] = 'title'
            inp += wb + '^' + esc(wf, at) + ''.join('<%s>' % t for t in st) + ''.join('/' + '+'.join(p.written() for p in r) for r in rds) + '$'
            out = [] if mode.get('nowf') else [esc(wf, at) + ''.join('<%s>' % t for t in st)]
            out += [show(r, mode) for r in (rds[:1] if mode.get('first') else rds)]
            want += wb + ('%s' if mode.get('surface') else '^%s$').replace('%s', '/'.join(out), 1)
            if mode.get('surface') and 0:
                pass
            b = blank(src)
            if wb and src.p(60):
                b = '[[/]]' + b
            inp += b
            want += b
            if b:
                marks.add('blank')
        if src.p(40) and tool == 'cg-proc':
            inp += '\0'
            want += '\0'
            marks.add('nul')
    if not ntok and tool == 'cg-conv':
        raise Discard()
    head = ['DELIMITERS = "<.>" "<a>" "<;>" ;', 'DELIMITERS = "<.>" ;\nSOFT-DELIMITERS = "<b>" "<,>" ;', '']
    gt = src.c(head) + '\n'
    if src.p(25):
        gt += 'SUBREADINGS = LTR ;\n'
    gt += src.c(['REMOVE (nvr) ;', 'SECTION\nSELECT (nvr) ;\nREMOVE (nvr) ;', 'SELECT SUB:* (nvr) IF (1* (n) LINK 1 (nvr)) ;', 'ADD (x) (nvr) ;', 'REMOVE (n) IF (0 (nvr)) ;']) + '\n'
    under = []
    if tool == 'cg-proc':
        if src.p(35):
            under = ['env=CG3_OVERRIDE=' + src.c(['--hard-limit 3', '--soft-limit 2', '--num-windows 1', '--num-windows 0 --hard-limit 4', '--hard-limit 2 --soft-limit 1', '--split-mappings', '--dep-absolute', '--max-runs 1'])]
        p = d.write('g.cg3', gt)
        if src.p(25):
            must(d.run('cg-comp', [p, d.path('g.bin')], '', 4000), 'cg-comp', gt, '')
            p = d.path('g.bin')
        a = args + [p]
        if src.p(10):
            d.write('in.txt', inp)
            a.append(d.path('in.txt'))
            if src.p(50):
                d.unlink('out.txt')
                a.append(d.path('out.txt'))
        r = d.run('cg-proc', a, '' if len(a) > len(args) + 1 else inp, 4000, under=under)
        out = must(r, 'cg-proc', gt, inp, a)
        if a[-1].endswith('out.txt'):
            out = d.read('out.txt').decode('utf8', 'replace')
    else:
        a = ['-a', '-A']
        out = must(d.run('cg-conv', a, inp, 4000), 'cg-conv', '', inp, a)
    if out != want:
        i = next((i for i in range(min(len(out), len(want))) if out[i] != want[i]), min(len(out), len(want)))
        raise Violation("output differs from the input at %d: expected %r, got %r" % (i, want[max(0, i - 15):i + 25], out[max(0, i - 15):i + 25]), tool, case(gt, inp, [tool] + a + under) + "--- expected\n%s\n--- output\n%s\n" % (want, out))
    labels = sorted(marks) + [tool] + [k for k in mode if mode[k]]
    return Info(ntok > 0, inp + ' '.join(a), labels, {"input": inp, "options": ' '.join([tool] + args), "output": out})


# ---- with rules ----------------------------------------------------------------
QUOTED = re.compile('".*"$')


def cg_tokens(text):
    """[(wf, static, readings, deleted readings)]; a reading is a list of (base, tags)."""
    out = []
    for line in text.split('\n'):
        if line.startswith('"<'):
            m = re.match(r'"<(.*)>"(.*)$', line)
            out.append((m.group(1), tuple(m.group(2).split()), [], []))
            continue
        gone = line.startswith(';')
        body = line[1:] if gone else line
        if not body.startswith('\t') or not out:
            if line.strip():
                raise Discard()
            continue
        lvl = len(body) - len(body.lstrip('\t'))
        m = re.match(r'"((?:[^"\\]|\\.)*)"(.*)$', body.lstrip('\t'))
        if not m:
            raise Discard()
        rd = (m.group(1), tuple(m.group(2).split()))
        dest = out[-1][3 if gone else 2]
        if lvl == 1:
            dest.append([rd])
        else:
            dest[-1].append(rd)
    return out


def ap_escape(s):
    return esc(s)


def ap_reading(r, ltr):
    ps = r if ltr else r[::-1]
    return '+'.join(esc(b) + ''.join('<%s>' % t for t in ts if not QUOTED.match(t)) for b, ts in ps)


def last(r):
    """With the mapping tags of each part last, where the CG format prints them."""
    return '+'.join(re.sub(r'<@[^<>]*>', '', p) + ''.join(re.findall(r'<@[^<>]*>', p)) for p in r.split('+'))


def bag(r):
    return tuple((p.split('<')[0], tuple(sorted(set(p.split('<')[1:])))) for p in r.split('+'))


def ap_tokens(text):
    """Apertium text to tokens and the text around them."""
    toks, blanks = [], ['']
    i, n = 0, len(text)
    inb = 0
    while i < n:
        c = text[i]
        if c == '\\':
            blanks[-1] += text[i:i + 2]
            i += 2
            continue
        if c == '[':
            inb += 1
        elif c == ']':
            inb -= 1
        if c != '^' or inb:
            blanks[-1] += c
            i += 1
            continue
        j = i + 1
        fields, cur = [], ''
        while text[j] != '$':
            if text[j] == '\\':
                cur += text[j:j + 2]
                j += 2
                continue
            if text[j] == '/':
                fields.append(cur)
                cur = ''
            else:
                cur += text[j]
            j += 1
        fields.append(cur)
        toks.append(fields)
        blanks.append('')
        i = j + 1
    return toks, blanks


def rules(src, env):
    d = env.d
    cfg = rich.config(src, feat=gen.FEAT[:5], static=6, maxcoh=4, wfs=gen.WFS[:4] + ['"<a b>"', '"<x[y>"'], bases=gen.BASES[:4])
    R = rich.Rich(src, cfg, deps=0, rels=0, move=0, vstr=0, delimit=3, jump=4, loops=4, deleted=4, flags=10, names=30)
    g = R.grammar(8, 90)
    ltr = src.p(25)
    if ltr:
        g.header += 'SUBREADINGS = LTR ;'
    gt = g.text()
    ws = gen.stream(src, cfg)
    cg, ap = '', ''
    lead = blank(src)
    ap += lead
    blanks = [lead]
    for w in ws:
        for wf, st, rds in w:
            lines = gen.show_cohort((wf, st, rds))
            cg += lines
            (cwf, cst, crd, gone), = cg_tokens(lines)
            # more than one mapping tag splits a reading, or not, according to the format
            if any('<' in t for t in cst) or any(sum(t[0] == '@' for t in ts) > 1 for r in crd for b, ts in r):
                raise Discard()
            ap += '^' + esc(cwf) + ''.join('<%s>' % t for t in cst) + ''.join('/' + ap_reading(r, ltr) for r in crd) + '$'
            b = src.c([' ', ' ', '', blank(src)])
            b = re.sub(r'\[<STREAMCMD[^]]*\]', '[x]', b)
            ap += b
            blanks.append(b)
    if 'STREAMCMD' in ap:
        raise Discard()
    trace = src.p(35)
    common = ''     # how far ahead of a window others are read differs between the readers
    va, pa = ['--split-mappings'], []
    if trace:
        va.append('--trace')
        pa.append('-t')
    if src.p(15):
        k = src.r(1, 2)
        va += ['--sections', '%d' % k if k == 1 else '1-%d' % k]
        pa += ['-s', str(k)]
    p = d.write('g.cg3', gt)
    rv = d.run('vislcg3', ['-g', p] + va + common.split(), cg, 3000)
    if rv.rc == -1000:
        raise Discard()
    want = cg_tokens(must(rv, 'vislcg3', gt, cg, va))
    if src.p(30):
        must(d.run('cg-comp', [p, d.path('g.bin')], '', 4000), 'cg-comp', gt, '')
        p = d.path('g.bin')
    under = ['env=CG3_OVERRIDE=--split-mappings ' + common] if src.p(50) else (['env=CG3_OVERRIDE=' + common] if common else [])
    r = d.run('cg-proc', pa + [p], ap, 6000, under=under)
    out = must(r, 'cg-proc', gt, ap, pa)
    toks, bl = ap_tokens(out)
    whole = lambda: case(gt, ap, pa + under) + "--- CG input\n%s--- vislcg3 %s\n%s--- cg-proc\n%s\n" % (cg, ' '.join(va), rv.out.decode('utf8', 'replace'), out)
    if len(toks) != len(want):
        raise Violation("expected %d words, got %d" % (len(want), len(toks)), "words", whole())
    if bl != blanks:
        raise Violation("text between words: expected %r, got %r" % (blanks, bl), "blanks", whole())
    for (wf, st, rds, gone), f in zip(want, toks):
        head = esc(wf) + ''.join('<%s>' % t for t in st)
        # equal readings are merged, which is to say those of the same tags
        a = sorted({ap_reading(x, ltr) for x in rds} | {'¬' + ap_reading(x, ltr) for x in gone})
        a, b = sorted(set(map(last, a))), sorted(set(map(last, f[1:])))
        if f[0] != head:
            raise Violation("expected word %r, got %r" % (head, f[0]), "word", whole())
        if not set(b) <= set(a) or {bag(x) for x in a} != {bag(x) for x in b}:
            raise Violation("word %r: expected %r, got %r" % (wf, a, b), "readings", whole())
    n0 = cg_tokens(cg)
    hit = len(n0) != len(want) or any(sorted(x[2]) != sorted(y[2]) for x, y in zip(n0, want))
    return Info(hit, gt + ap, ['trace'] * trace + ['ltr'] * ltr + (['changed'] if hit else []), {"grammar": gt, "input": ap, "output": out})


SUBS = [
    Sub("through", through, 12000, 200000, "the stream had a word"),
    Sub("rules", rules, 5000, 60000, "the rules changed an analysis"),
]
