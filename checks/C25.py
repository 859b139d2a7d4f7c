"""C25: what an external processor is sent, and what becomes of its replies."""
import copy, json, os, re, sys
from vlib import gen, rich
from vlib.common import vislcg3, must
from vlib.pbt import Sub, Violation, Discard, Info
from checks.C05 import Raw

TECHNIQUE = 'property-based testing: a generated external program logs what it receives (compared with the windows of the generated stream) and replies with generated edits; the output must be that of the grammar without the external on the stream with the same edits made'
NOTE = 'Replies are well-formed. The null reply of a shutdown is not looked for (the process may be ended first). Exploration only.'

HELPER = r'''
import sys, json, struct
plan = json.load(open(sys.argv[1]))
log = open(sys.argv[2], 'a')
inp, out = sys.stdin.buffer, sys.stdout.buffer
def get(n):
    b = inp.read(n)
    if len(b) != n:
        sys.exit(0)
    return b
class R:
    def __init__(s, b): s.b, s.i = b, 0
    def u32(s): s.i += 4; return struct.unpack('=I', s.b[s.i-4:s.i])[0]
    def text(s):
        s.i += 2; n = struct.unpack('=H', s.b[s.i-2:s.i])[0]; s.i += n
        if s.i > len(s.b): raise ValueError('text beyond the end')
        return s.b[s.i-n:s.i].decode('utf8')
    def part(s): n = s.u32(); s.i += n; return R(s.b[s.i-n:s.i])
    def end(s):
        if s.i != len(s.b): raise ValueError('%d of %d bytes read' % (s.i, len(s.b)))
def u32(n): return struct.pack('=I', n)
def text(t): t = t.encode('utf8'); return struct.pack('=H', len(t)) + t
def part(b): return u32(len(b)) + b
def window(b):
    w = R(b); num = w.u32(); cs = []
    for _ in range(w.u32()):
        c = w.part(); o = {'number': c.u32()}; f = c.u32(); o['flags'] = f
        o['parent'] = c.u32() if f & 2 else None
        o['wf'] = c.text(); o['readings'] = []
        for _ in range(c.u32()):
            r = c.part(); q = {'flags': r.u32()}
            q['base'] = r.text() if q['flags'] & 8 else None
            q['tags'] = [r.text() for _ in range(r.u32())]
            r.end(); o['readings'].append(q)
        o['text'] = c.text() if f & 1 else None
        c.end(); cs.append(o)
    w.end()
    return num, cs
def pack(num, cs):
    out = u32(num) + u32(len(cs))
    for o in cs:
        b = u32(o['number']) + u32((1 if o['text'] is not None else 0) | (2 if o['parent'] is not None else 0))
        if o['parent'] is not None: b += u32(o['parent'])
        b += text(o['wf']) + u32(len(o['readings']))
        for q in o['readings']:
            r = u32(q['flags'] & ~8 | (8 if q['base'] is not None else 0))
            if q['base'] is not None: r += text(q['base'])
            r += u32(len(q['tags'])) + b''.join(text(t) for t in q['tags'])
            b += part(r)
        if o['text'] is not None: b += text(o['text'])
        out += part(b)
    return part(out)
v = struct.unpack('=I', get(4))[0]
log.write(json.dumps({'version': v}) + '\n'); log.flush()
n = 0
while True:
    size = struct.unpack('=I', get(4))[0]
    if size == 0:
        break
    b = get(size)
    try:
        num, cs = window(b)
    except Exception as e:
        log.write(json.dumps({'bad': repr(e), 'bytes': b.hex()}) + '\n'); log.flush()
        out.write(u32(0)); out.flush()
        continue
    log.write(json.dumps({'number': num, 'cohorts': cs}) + '\n'); log.flush()
    p = plan['replies'][n] if n < len(plan['replies']) else None
    n += 1
    if plan.get('consume'):
        # takes the tag from the first reading that has it
        p = {'edits': [], 'flag': [], 'junk': []}
        for i, c in enumerate(cs):
            for j, q in enumerate(c['readings']):
                if plan['consume'] in q['tags'] and not p['edits']:
                    p['edits'] = [[i, j, [t for t in q['tags'] if t != plan['consume']] + plan['more'], None]]
    if p is None:
        out.write(u32(0)); out.flush()
        continue
    for i, j, tags, base in p['edits']:
        q = cs[i]['readings'][j]; q['tags'] = tags + [t for t in q['tags'] if t == '<<<' and t not in tags]; q['flags'] |= 1
        if base is not None: q['base'] = base
    for i, j in p['flag']:
        cs[i]['readings'][j]['flags'] |= 1
    for i, j in p['junk']:
        q = cs[i]['readings'][j]
        if not q['flags'] & 1: q['tags'] = q['tags'][1:] + ['junk']; q['base'] = '"junk"'
    for i, wf in p.get('wfs', []):
        cs[i]['wf'] = wf
    for i, t in p.get('texts', []):
        cs[i]['text'] = t
    for i, k in p.get('parents', []):
        cs[i]['parent'] = cs[k]['number']
    r = pack(num, cs)
    while r:
        k = plan['frag'] or len(r)
        out.write(r[:k]); out.flush(); r = r[k:]
'''


def stream(src, cfg, deps):
    """[window]: a window is a list of [word form, [[(base, tags), ...]], text or None, parent index or None]."""
    out = []
    for cs in gen.stream(src, cfg):
        w = []
        for i, (wf, st, rds) in enumerate(cs):
            t = None
            if src.p(12):
                t = ''.join(src.c(['plain line', '<b>x</b>', 'ßé 日本 😀', ' indented', '; note', 'a%sb $1', '']) + '\n' for _ in src.many(1, 3, 40))
                if not t.strip():
                    t = None
            w.append([wf, [[[b, list(ts)] for b, ts in ch] for ch in rds], t, src.r(0, len(cs)) if deps else None])
        out.append(w)
    return out


def show(ws):
    out = []
    n = 0
    for w in ws:
        for i, (wf, rds, t, par) in enumerate(w):
            out.append(wf + '\n')
            for ch in rds:
                for k, (b, ts) in enumerate(ch):
                    d = ['#%d->%d' % (i + 1, par)] if par is not None and k == 0 else []
                    out.append('\t' * (k + 1) + ' '.join([b] + ts + d) + '\n')
            out.append(t or '')
    return ''.join(out)


def blocks(text):
    """The lines, with the readings of a cohort (each with its sub-readings) in one order, and once."""
    out, cur = [], []
    for l in text.split('\n'):
        if l.startswith('\t') or l.startswith(';\t'):
            if l.lstrip(';')[1:2] == '\t' and cur:
                cur[-1] += '\n' + l
            else:
                cur.append(l)
        else:
            out += sorted(set(cur)) + [l]
            cur = []
    return out + sorted(set(cur))


def setup(env, plan):
    d = env.d
    d.write('ext.py', HELPER)
    d.write('plan.json', json.dumps(plan))
    d.unlink('ext.log')
    return '"%s -S -E %s %s %s"' % (os.path.realpath(sys.executable), d.path('ext.py'), d.path('plan.json'), d.path('ext.log'))


def received(env, whole):
    log = env.d.read('ext.log') if env.d.exists('ext.log') else b''
    out = [json.loads(l) for l in log.decode('utf8').split('\n') if l]
    if out and out[0] != {'version': 7226}:
        raise Violation("the first message was %r" % (out[0],), "version", whole())
    for o in out[1:]:
        if 'bad' in o:
            raise Violation("a window that does not follow the protocol: %s" % o['bad'], "protocol", whole() + '--- bytes\n' + o['bytes'])
    return out[1:]


def check_window(got, w, deps, whole):
    if len(got['cohorts']) != len(w):
        raise Violation("a window of %d cohorts was sent as %d" % (len(w), len(got['cohorts'])), "window", whole() + '--- sent\n%r' % got)
    num = [c['number'] for c in got['cohorts']]
    if len(set(num)) != len(num):
        raise Violation("two cohorts with the same number: %r" % num, "window", whole())
    for i, (g, (wf, rds, t, par)) in enumerate(zip(got['cohorts'], w)):
        rs = [(r['base'], [t for t in r['tags'] if t != '<<<']) for r in g['readings']]
        want = [(ch[0][0], [x for k, x in enumerate(ch[0][1])]) for ch in rds]
        if g['wf'] != wf or rs != want:
            raise Violation("cohort %d was sent as %r %r, it is %r %r" % (i + 1, g['wf'], rs, wf, want), "window", whole())
        if (g['text'] or '').strip('\n') != (t or '').strip('\n'):
            raise Violation("cohort %d: text %r was sent as %r" % (i + 1, t, g['text']), "window", whole())
        if any(r['flags'] & 7 for r in g['readings']):
            raise Violation("cohort %d: flags %r" % (i + 1, [r['flags'] for r in g['readings']]), "window", whole())
        if deps:
            p = g['parent']
            mine = 0 if p == 0 else num.index(p) + 1 if p in num else None if p is None else 'p%d' % p
            if mine != par and not (mine is None and par == i + 1):
                raise Violation("cohort %d: parent %r (numbers %r) was sent for %r" % (i + 1, p, num, par), "window", whole())


def replies(src, env):
    deps = src.p(35)
    cfg = rich.config(src, static=0, empty=0, maxwin=4, maxcoh=5, subs=src.c([0, 25]), mapping=0)
    ws = stream(src, cfg, deps)
    always = src.p(20)
    target = src.c(['*', '*', 'N', 'V', 'CLB', '@s', '"a"'])
    tags = gen.TAGS if hasattr(gen, 'TAGS') else ['N', 'V', 'A', 'x']
    NEW = ['edit', 'x', 'N', 'V', '<h>', '<W=3>', 'é', '日', '😀', 'a,b', '@s', '@o', '"b"x', 'long' * 300]
    if not any(cfg_tag == '@s' for w in ws for c in w for ch in c[1] for cfg_tag in ch[0][1]):
        NEW = [t for t in NEW if t[0] != '@']
    R = rich.Rich(src, cfg, deps=0, rels=0, vars=0, deleted=0, delimit=0, move=0, jump=0, vstr=0, bag=0, flags=10)
    g = R.grammar(4, 70)
    if deps:
        g.null = [Raw('SETPARENT (nvr) TO (1 (nvr)) ;')]
    gt = g.text()
    if 'BEFORE-SECTIONS' in gt or deps and ('_SAME_BASIC_' in gt or re.search(r'@[a-z]', gt)) or 'EXTERNAL' in gt or 'DELAYED' in gt or 'IGNORED' in gt:
        raise Discard()
    new = copy.deepcopy(ws)
    plan = {'replies': [], 'frag': src.c([0, 0, 0, 1, 3, 64])}
    sent = []
    n_edits = 0
    for w, v in zip(ws, new):
        hit = target == '*' or any(target in [ch[0][0]] + ch[0][1] for c in w for ch in c[1])
        if not hit:
            continue
        sent.append(w)
        kind = src.w([(2, 'null'), (2, 'echo'), (5, 'edit')])
        if kind == 'null':
            plan['replies'].append(None)
            continue
        p = {'edits': [], 'flag': [], 'junk': [], 'wfs': [], 'texts': [], 'parents': []}
        for i, c in enumerate(v):
            for j, ch in enumerate(c[1]):
                if kind == 'edit' and src.p(30):
                    ts = list(ch[0][1])
                    how = src.r(0, 4)
                    if how == 0 and ts:
                        del ts[src.r(0, len(ts) - 1)]
                    elif how == 1:
                        ts = []
                    elif how == 2 and ts:
                        ts[src.r(0, len(ts) - 1)] = src.c(NEW)
                    else:
                        ts.insert(src.r(0, len(ts)), src.c(NEW))
                    if len(set(ts)) < len(ts) or sum(t[0] == '@' for t in ts) > 1:
                        continue
                    ts = [t for t in ts if t[0] != '@'] + [t for t in ts if t[0] == '@']
                    base = src.c(['"a"', '"cat"', '"new é"', '"😀"']) if src.p(20) else None
                    p['edits'].append([i, j, ts, base])
                    n_edits += 1
                    ch[0][1] = ts
                    if base:
                        ch[0][0] = base
                elif src.p(15):
                    p['flag'].append([i, j])
                elif src.p(15):
                    p['junk'].append([i, j])
            if kind == 'edit' and i < len(v) - 1:
                if src.p(8) and all(len(ch) == 1 for ch in c[1]) and not any(x in ([i]) for x, _ in p['junk']):
                    c[0] = src.c(['"<a>"', '"<New>"', '"<é 日>"'])
                    p['wfs'].append([i, c[0]])
                    n_edits += 1
                if c[2] and src.p(30):
                    c[2] = src.c(['changed\n', 'two\nlines ☃\n'])
                    p['texts'].append([i, c[2]])
                    n_edits += 1
            if kind == 'edit' and deps and src.p(15):
                k = src.r(0, len(v) - 1)
                if k != i:
                    c[3] = k + 1
                    p['parents'].append([i, k])
                    n_edits += 1
        plan['replies'].append(p)
    if any(len(set((ch[0][0], frozenset(ch[0][1])) for ch in c[1])) < len(c[1]) for v in ws + new for c in v):
        raise Discard()  # equal readings of an input are one
    cmd = setup(env, plan)
    rule = 'EXTERNAL ONCE %s (%s)%s ;' % (cmd, target, '')
    head, rest = gt.split('\nSECTION', 1) if '\nSECTION' in gt else (gt, None)
    if rest is None:
        raise Discard()
    ge = head + '\nBEFORE-SECTIONS\n' + rule + '\nSECTION' + rest
    gp = head + '\nBEFORE-SECTIONS\nREMOVE (nvr) ;\nSECTION' + rest
    args = src.sub(['--trace', '--split-mappings'], 0, 2) if src.p(40) else []
    t1, t2 = show(ws), show(new)
    whole = lambda: '--- grammar\n%s--- args %r\n--- input\n%s--- plan\n%s\n--- edited input\n%s' % (ge, args, t1, json.dumps(plan), t2)
    rp = vislcg3(env, gp, t2, args)
    if rp.rc == -1000:
        raise Discard()
    want = must(rp, 'vislcg3 on the edited stream', gp, t2, args)
    r = vislcg3(env, ge, t1, args)
    if r.rc == -1000:
        raise Violation("no end", "hang", whole())
    if r.rc != 0:
        raise Violation("status %d: %s" % (r.rc, r.err.decode('utf8', 'replace')[-600:]), "status", whole())
    got = received(env, whole)
    if len(got) != len(sent):
        raise Violation("%d windows were sent, %d have a target" % (len(got), len(sent)), "windows", whole())
    for o, w in zip(got, sent):
        check_window(o, w, deps, whole)
    ids = [o['number'] for o in got]
    if sorted(set(ids)) != ids:
        raise Violation("window numbers %r" % ids, "windows", whole())
    out = r.out.decode('utf8', 'replace')
    if '--trace' in args:
        out = re.sub(r' EXTERNAL-ONCE:\d+', '', out)
    if blocks(out) != blocks(want):
        raise Violation("the output is not that of the edited stream", "edits", whole() + '--- output\n%s--- of the edited stream\n%s' % (out, want))
    return Info(n_edits > 0, whole(), [x for x in ['deps' if deps else '', target, 'null' if None in plan['replies'] else ''] if x], {"plan": plan, "input": t1})


def always(src, env):
    """ALWAYS: called as long as there is a target; ONCE in several rules and sections."""
    cfg = rich.config(src, static=0, empty=0, maxwin=3, maxcoh=4, subs=0, mapping=0)
    ws = stream(src, cfg, False)
    new = copy.deepcopy(ws)
    more = src.c([[], ['edit'], ['é']])
    total = [0] * len(ws)
    for n, w in enumerate(ws):
        for c in w:
            for r in c[1]:
                if src.p(30):
                    r[0][1].insert(src.r(0, len(r[0][1])), 'todo')
                    total[n] += 1
    plan = {'replies': [], 'frag': 0, 'consume': 'todo', 'more': more}
    cmd = setup(env, plan)
    sec = src.c(['BEFORE-SECTIONS', 'SECTION', 'AFTER-SECTIONS'])
    twice = src.p(20)
    ge = 'DELIMITERS = "<.>" ;\n%s\nEXTERNAL ALWAYS %s (todo) ;\n%sADD (seen) (edit) ;\n' % (sec, cmd, 'EXTERNAL ALWAYS %s (todo) ;\n' % cmd if twice else '')
    gp = 'DELIMITERS = "<.>" ;\n%s\nREMOVE (nvr) ;\nADD (seen) (edit) ;\n' % sec
    t1 = show(ws)
    r = vislcg3(env, ge, t1, [])
    whole = lambda: '--- grammar\n%s--- input\n%s' % (ge, t1)
    if r.rc != 0:
        raise Violation("status %d: %s" % (r.rc, r.err.decode('utf8', 'replace')[-600:]), "status", whole())
    got = received(env, whole)
    calls = [0] * len(ws)
    for o in got:
        if not 1 <= o['number'] <= len(ws):
            raise Violation("window number %d" % o['number'], "always", whole())
        calls[o['number'] - 1] += 1
    # each call takes the tag from the next reading
    for n, (v, w) in enumerate(zip(new, ws)):
        k = calls[n]
        if k > total[n] or total[n] and not k:
            raise Violation("window %d: %d calls for %d targets" % (n + 1, k, total[n]), "always", whole())
        for c, e in zip(w, v):
            for x, y in zip(c[1], e[1]):
                if 'todo' in x[0][1]:
                    if k:
                        k -= 1
                        y[0][1] = [t for t in x[0][1] if t != 'todo'] + more
                    else:
                        y[0][1] = x[0][1]
    t2 = show(new)
    if any(len(set(r[0][1])) < len(r[0][1]) for w in new for c in w for r in c[1]):
        raise Discard()
    want = must(vislcg3(env, gp, t2, []), 'vislcg3 on the edited stream', gp, t2)
    out = r.out.decode('utf8', 'replace')
    if out != want:
        raise Violation("the output is not that of the edited stream", "always", whole() + '--- edited input\n%s--- output\n%s--- of the edited stream\n%s--- windows sent\n%r' % (t2, out, want, got))
    return Info(sum(calls) > 1, whole(), ['%d calls' % min(sum(calls), 5), sec], {"grammar": ge, "input": t1})


SUBS = [
    Sub("replies", replies, 2500, 30000, "a reply changed something", timeout_ms=8000),
    Sub("always", always, 700, 8000, "at least two calls", timeout_ms=8000),
]
