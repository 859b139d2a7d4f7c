"""C17: no input corrupts memory, crashes the tools or keeps them running for ever."""
import re
from vlib import gen, rich
from vlib.common import case
from vlib.pbt import Sub, Violation, Discard, Info
from checks import C05, C06

TECHNIQUE = 'structure-aware fuzzing: generated streams, grammars and cut compiled grammars with shrinkable mutations, run in processes built with AddressSanitizer and UBSan, with a limit on time and memory'
NOTE = 'Of a grammar that parses, only the parsing is timed, since a grammar can rightly ask for endless work. Leaks at exit are not looked for.'

TOKENS = [b'"', b'"<', b'>"', b'\n', b'\t', b'<', b'>', b'^', b'$', b'/', b'\\', b'[', b']', b'[[', b']]', b'{', b'}', b'+', b'#', b'#1->0', b'#0->0', b'#4294967295->1', b'#1->99999999999', b' ', b'\0', b'\xff',
          b'\xc3', b'\xf0\x9f\x98\x80', b'\xef\xbb\xbf', b'ID:1', b'R:x:1', b'ID:4294967295', b'R::', b'<STREAMCMD:FLUSH>\n', b'<STREAMCMD:SETVAR:>\n', b'<STREAMCMD:SETVAR:=,=>\n', b'<STREAMCMD:REMVAR:,>\n', b'<STREAMCMD:IGNORE>\n',
          b'<STREAMCMD:RESUME>\n', b'<STREAMCMD:EXIT>\n', b'<STREAMCMD:', b'"<>"', b'""', b'"<x>" "y"', b';', b'; ', b'\t"', b'\t\t\t\t"x" Y\n', b'<W:99999999999999999999>', b'<W:->', b'<W:1e309>', b'"<a\xcc\x81>"', b'$1', b'%U', b'*', b'@', b'@@', b'\xc2\xad', b'\xe2\x86\x92', b'null', b'{}',
          b'[]', b'""', b'-1', b'1e999', b'\\u0000', b'\\ud800', b'true', b'\r', b'\r\n', b'+?', b'\t+?\tinf', b'a' * 3000, b'<' * 300, b'(' * 300, b'"' * 301, b'\t' * 700, b'[' * 2000, b'{"a":' * 300]
GTOKENS = [b';', b'(', b')', b'"', b'LIST', b'SET', b'SECTION', b'END', b'TEMPLATE', b'=', b'OR', b'+', b'-', b'\\', b'^', b'|', b'*', b'**', b'0', b'-1', b'1*', b'LINK', b'BARRIER', b'CBARRIER', b'IF', b'NOT', b'NEGATE', b'ALL', b'NONE', b'TO', b'FROM', b'TARGET', b'WITH', b'{', b'}', b'ADD',
           b'SUBSTITUTE', b'WITHCHILD', b'NOCHILD', b'T:', b'T:x', b'VAR:', b'LVAR:', b'SET:', b'META:', b'"v', b'"r', b'"i', b'/x/r', b'//', b'//r', b'"("r', b'"[ab"r', b'"$1"v', b'"$9%U%"v', b'$$', b'$$x', b'&&', b'&&x', b'{', b'"<x>"', b'99999999999', b'1/99', b'SUB:', b'SUB:*', b'SUB:-99', b'@1', b'@-99', b'1000000', b'-1000000',
           b'>>>', b'<<<', b'_MARK_', b'_C99_', b'STRICT-TAGS', b'OPTIONS +=', b'CMDARGS +=', b'INCLUDE', b'INCLUDE STATIC', b'PARENTHESES', b'SUBREADINGS', b'MAPPING-PREFIX', b'REOPEN-MAPPINGS', b'UNDEF-SETS', b'SETS', b'LIST-TAGS', b'STATIC-SETS', b'REGEX', b'EXTERNAL', b'ONCE', b'ALWAYS', b'<W', b'<W>', b'<W=>', b'<W>MAX>',
           b'\0', b'\xff', b'#', b'\n', b'\t', b'\xef\xbb\xbf', b'(' * 200, b'( ' * 400, b'a' * 1100, b'a' * 40000, b'APPEND', b'COPYCOHORT', b'SPLITCOHORT', b'MERGECOHORTS', b'1->2', b'c->p', b'R:*', b'999999->1', b'0->0', b'MOVE', b'SWITCH', b'BEFORE', b'AFTER', b'ADDRELATIONS', b'MAP', b'REPLACE', b'EXCEPT', b'JUMP', b'ANCHOR',
           b'PROTECT', b'RESTORE', b'NULL-SECTION', b'BEFORE-SECTIONS', b'AFTER-SECTIONS', b'DELIMITERS = "<.>" ;', b'SOFT-DELIMITERS =', b'TEXT-DELIMITERS =', b'STATIC-SETS =', b':', b':x', b'!', b'?', b'(1 (x) LINK', b'-0', b'0*', b'1**', b'r:', b'r:*', b'cc', b'pp', b'ssss', b'jM', b'jC9', b'T', b'D', b'd', b'/']


def mutate(src, data, toks, hi=6):
    """Edits that the shrinker can take back one by one."""
    lab = set()
    for _ in src.many(1, hi, 65):
        k = src.w([(3, 'cut'), (3, 'flip'), (4, 'token'), (3, 'drop'), (3, 'dup'), (2, 'swap'), (1, 'shuffle'), (1, 'num')])
        n = len(data)
        at = src.n(n + 1)
        lab.add(k)
        if k == 'cut':
            data = data[:at] if src.p(60) else data[at:]
        elif k == 'flip' and n:
            at = min(at, n - 1)
            data = data[:at] + bytes([src.c([0, 1, 0x7f, 0x80, 0xff, data[at] ^ (1 << src.n(8)), src.n(256)])]) + data[at + 1:]
        elif k == 'token':
            data = data[:at] + src.c(toks) + data[at:]
        elif k == 'drop':
            data = data[:at] + data[at + src.c([1, 1, 2, 4, 8, 40]):]
        elif k == 'dup':
            l = src.c([1, 2, 4, 10, 50, 200])
            data = data[:at] + data[at:at + l] * src.c([2, 2, 3, 20]) + data[at + l:]
        elif k == 'swap':
            # Moves a piece somewhere else
            l = src.r(1, 40)
            x = data[at:at + l]
            data = data[:at] + data[at + l:]
            b = src.n(len(data) + 1)
            data = data[:b] + x + data[b:]
        elif k == 'shuffle':
            ls = data.split(b'\n')
            i, j = src.n(len(ls)), src.n(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
            data = b'\n'.join(ls)
        elif k == 'num':
            m = list(re.finditer(rb'\d+', data))
            if m:
                m = m[src.n(len(m))]
                data = data[:m.start()] + src.c([b'0', b'1', b'4294967295', b'4294967296', b'-1', b'99999999999999999999', b'65535', b'007']) + data[m.end():]
    return data[:200000], lab


def judge(r, what, files, timed=True):
    """files: [(name, bytes)]"""
    def det():
        return ''.join('--- %s\n%s\n' % (n, (b.decode('utf8', 'backslashreplace') if isinstance(b, bytes) else b)[:20000]) for n, b in files) + '--- stderr\n' + r.err.decode('utf8', 'replace')[-3500:]
    if r.rc == -1000:
        if not timed:
            raise Discard('time-out')
        raise Violation('%s never ends (or takes all memory)' % what, 'hang', det())
    if r.rc == 77 or r.rc < 0:
        e = r.err.decode('utf8', 'replace')
        m = re.search(r'(ERROR: AddressSanitizer: [\w-]+|runtime error: .*|terminate called.*|what\(\):.*)', e)
        fr = re.findall(r'#\d+ 0x\w+ in (\S+?)[( ].*?/src/([\w.]+:\d+)', e)
        fr = [x for x in fr if 'driver' not in x[1]][:3]
        raise Violation('%s: %s%s' % (what, m.group(1) if m else 'ended with signal %d' % -r.rc, ''.join(' < %s %s' % x for x in fr)), 'memory', det())
    if r.rc != 0 and timed and not r.err.strip():
        pass
    return r.rc


READERS = {'cg': '-c', 'jsonl': '-j', 'binary': '-z', 'apertium': '-a', 'niceline': '-n', 'fst': '-f', 'plain': '-x'}
WRITER = {'cg': '-C', 'jsonl': '-J', 'binary': '-Z', 'apertium': '-A', 'niceline': '-N', 'fst': '-F', 'plain': '-X'}


def material(src, env, fmt):
    """Bytes in the format."""
    if fmt == 'fst' and src.p(60):
        return ''.join('%s\t%s\n' % (src.c(['cat', 'a b', '#x', '"', '<s>']), src.c(['cat+N+Sg', '+?', 'cat+N#dog+V', 'cat\tinf', 'cat+N\t5.5', 'c+a+', '+N', 'x_Sem/y+N'])) + src.c(['', '\n']) for _ in src.many(1, 8, 80)).encode()
    if fmt == 'apertium' and src.p(60):
        out = ''
        for _ in src.many(1, 10, 85):
            out += src.c(['^cat/cat<n><sg>$', '^a b/a# b<v>/a<n>$', '^x/*x$', '^x/a<n>+b<v>/c<adj>$', '[<b>]', '[[t:b:1]]^y/y<n>$[[/]]', ' ', '\\^', '^z/\\/z<n>$', '.[]\n', '^./.<sent>$', '^q/@q$', '^a/b<n><@x→>$', '\0', '[a\\]b]', '^a/b<n>/b<v># c$', '<STREAMCMD:FLUSH>', '<STREAMCMD:SETVAR:x=y>'])
        return out.encode()
    if fmt == 'jsonl' and src.p(40):
        out = ''
        for _ in src.many(1, 6, 80):
            out += src.c(['{"w":"cat","rs":[{"l":"cat","ts":["N","Sg"]}]}', '{"w":".","rs":[{"l":".","ts":["CLB"]}]}', '{"cmd":"FLUSH"}', '{"t":"text"}', '{"w":"a","sts":["x"],"rs":[{"l":"a","ts":[],"s":{"l":"b","ts":["V"]}}]}', '{"w":"d","ds":1,"dp":0,"rs":[{"l":"d","ts":["@x"]}]}',
                          '{"w":"e","drs":[{"l":"d","ts":["@x"]}]}', '{"cmd":"SETVAR:x=y"}', '{"w":"a","z":" ","rs":[]}', '{"w":1}', '{}', '[]', '{"w":"","rs":[{}]}', '{"cmd":"EXIT"}', '{"cmd":"IGNORE"}', '{"cmd":"RESUME"}']) + '\n'
        return out.encode()
    cfg = dict(text=src.c([0, 15, 40]), cmds=src.c([0, 0, 15]), deps=src.p(40), empty=src.p(15), rels=0, long=src.c([0, 0, 2]))
    text = '\n'.join(C06.stream(src, cfg).lines) + '\n'
    if src.p(25):
        text = rich.stream(src, rich.config(src), deps=50, rels=50, text=8, cmds=8)
    if fmt == 'cg':
        return text.encode()
    r = env.d.run('cg-conv', ['-c', WRITER[fmt]], text, 8000)
    if r.rc != 0:
        judge(r, 'cg-conv -c ' + WRITER[fmt], [('input', text)])
        raise Discard('not converted')
    return r.out


def streams(src, env):
    fmt = src.c(list(READERS))
    data = material(src, env, fmt)
    lab = set()
    if src.p(90):
        data, lab = mutate(src, data, TOKENS)
    tool = src.w([(6, 'conv'), (4, 'rules'), (1, 'auto'), (1, 'split')])
    if tool == 'rules' and fmt not in ('cg', 'jsonl', 'binary', 'apertium'):
        tool = 'conv'
    if tool == 'split' and fmt != 'cg':
        tool = 'conv'
    d = env.d
    gt = ''
    if tool == 'rules':
        gt = RULES
        d.write('g.cg3', gt)
        d.write('g.bin', b'')
        if fmt == 'apertium':
            r = d.run('cg-comp', ['g.cg3', 'g.bin'], '', 8000)
            a = ('cg-proc', src.c([[], ['-w'], ['-1'], ['-t'], ['-g'], ['-n'], ['-z'] if 0 else []]) + ['g.bin'])
        else:
            a = ('vislcg3', ['-g', 'g.cg3'] + {'cg': [], 'jsonl': ['--in-jsonl', '--out-jsonl'], 'binary': ['--in-binary', '--out-binary']}[fmt] + src.c([[], ['--trace'], ['--deleted'] if fmt == 'cg' else [], ['--num-windows', '0'], ['--print-ids'], ['--dep-delimit', '2'], ['--soft-limit', '2', '--hard-limit', '3']]))
    elif tool == 'auto':
        a = ('cg-conv', ['-u', '-C'])
    elif tool == 'split':
        a = ('cg-mwesplit', [])
    else:
        a = ('cg-conv', [READERS[fmt], src.c(list(WRITER.values()))] + src.c([[], [], ['-D'], ['-l'], ['-o'], ['--deleted']]))
    r = d.run(a[0], a[1], data, 9000)
    rc = judge(r, ' '.join((a[0],) + tuple(a[1])), [('grammar', gt), ('input', data)])
    return Info(rc == 0 and len(r.out) > 0 or rc != 0, repr((a, data)), sorted(lab) + [fmt, tool, 'accepted' if rc == 0 else 'refused'], {'run': a, 'input': repr(data[:500])})


RULES = '''DELIMITERS = "<.>" ;
SOFT-DELIMITERS = "<,>" ;
PARENTHESES = ("<(>" "<)>") ;
LIST N = N n ;
SECTION
SELECT N IF (-1 (V)) ;
ADD (@x) (V) IF (1* N BARRIER (CLB)) ;
SETPARENT:dep (N) TO (-1* (V)) ;
ADDRELATION (rel) (N) TO (1 (*)) ;
SUBSTITUTE ("(.*)"r) ("$1x"v) N ;
DELIMIT (CLB) IF (0 (x)) ;
ADDCOHORT ("<new>" "new" X) AFTER N - (X) IF (NOT 1 (X)) ;
REMCOHORT (adj) ;
MOVE NOITERATE (V) AFTER (1 N) ;
MAP (@y) (*) IF (c (V)) ;
SUBSTITUTE SUB:* (V) (W) (*) ;
'''


def grammars(src, env):
    gt, text, args, labels = C05.make(src)
    data, lab = mutate(src, gt.encode(), GTOKENS)
    if b'EXTERNAL' in data or b'INCLUDE' in data and re.search(rb'INCLUDE[\s\S]*?/', data):
        data = data.replace(b'EXTERNAL', b'EXTERN').replace(b'/', b'|')
    d = env.d
    d.write('g.cg3', data)
    how = src.w([(5, 'parse'), (4, 'run'), (2, 'bin'), (2, 'out')])
    a = ['-g', 'g.cg3'] + {'parse': ['--grammar-only'], 'run': args, 'bin': ['--grammar-only', '--grammar-bin', 'g.out'], 'out': ['--grammar-only', '--grammar-out', 'g.out']}[how] + src.c([[], [], ['--show-unused-sets'], ['--show-tags'], ['--dump-ast'] , ['--nrules', 'x']])
    r = d.run('vislcg3', a, text, 9000)
    rc = judge(r, 'vislcg3 ' + ' '.join(a), [('grammar', data), ('input', text)], how != 'run')
    if how in ('bin', 'out') and rc == 0 and d.exists('g.out'):
        r = d.run('vislcg3', ['-g', 'g.out', '--grammar-only'], '', 9000)
        judge(r, 'the grammar written by vislcg3 ' + ' '.join(a), [('grammar', data)])
    d.unlink('g.out')
    return Info(True, data.decode('latin1'), sorted(lab) + [how, 'accepted' if rc == 0 else 'refused'], {'grammar': data[:1500].decode('utf8', 'replace'), 'options': a})


def binaries(src, env):
    gt, text, args, labels = C05.make(src)
    d = env.d
    d.write('g.cg3', gt)
    d.unlink('g.bin')
    r = d.run('vislcg3', ['-g', 'g.cg3', '--grammar-only', '--grammar-bin', 'g.bin'], '', 9000)
    if r.rc != 0 or not d.exists('g.bin'):
        raise Discard('not written')
    data = d.read('g.bin')
    lab = set()
    how = src.w([(6, 'cut'), (2, 'header'), (1, 'other')])
    if how == 'cut':
        data = data[:src.n(len(data))]
    elif how == 'header':
        if src.p(50):
            at = src.n(4)
            data = data[:at] + bytes([data[at] ^ (1 << src.n(8))]) + data[at + 1:]
        else:
            data = data[:4] + src.c([b'\0\xff\0\0', b'\xff\xff\xff\xff', b'\0\0\xff\xff']) + data[8:]
    else:
        data = src.c([gt.encode(), b'', b'CG3', data[:4], data[:8], b'CG3\0' + data[4:], b'\0' * 40, b'DELIMITERS'])
    lab.add(how)
    d.write('g.bin', data)
    how = src.w([(3, 'parse'), (2, 'run'), (1, 'out'), (1, 'proc')])
    if how == 'proc':
        r = d.run('cg-proc', ['g.bin'], '^a/a<n>$ ^./.<sent>$', 9000)
    else:
        r = d.run('vislcg3', ['-g', 'g.bin'] + {'parse': ['--grammar-only'], 'run': args, 'out': ['--grammar-only', '--grammar-out', 'g.out']}[how], text, 9000)
    rc = judge(r, 'a compiled grammar (%s)' % how, [('grammar before the changes', gt), ('grammar', repr(data)), ('input', text)], how == 'parse')
    if rc == 0 and data[:4] == b'CG3B':
        raise Violation('a grammar that is incomplete or of another kind is taken for a good one', 'accepted', case(gt, text, args) + repr(data))
    return Info(True, gt + repr(data), sorted(lab) + [how], {'grammar': gt[:600], 'size': len(data)})


SUBS = [
    Sub('streams', streams, 8000, 100000, 'something was written, or the input refused', variant='asan', timeout_ms=20000),
    Sub('grammars', grammars, 5000, 60000, 'parsed or refused', variant='asan', timeout_ms=20000),
    Sub('binaries', binaries, 1500, 40000, 'read or refused', variant='asan', timeout_ms=20000),
]
