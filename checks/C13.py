"""C13: diagnostics never change the analysis."""
import re, sqlite3
from collections import Counter
from vlib import gen, rich
from vlib.common import case, must
from vlib.pbt import Sub, Violation, Discard, Info
from vlib.gr import L, comp

KW = ('SELECT|REMOVE|IFF|ADD|MAP|REPLACE|SUBSTITUTE|APPEND|COPY|RESTORE|UNMAP|PROTECT|UNPROTECT|DELIMIT|SETPARENT|SETCHILD|REMPARENT|SWITCHPARENT|ADDRELATIONS?|SETRELATIONS?|REMRELATIONS?|'
      'SETVARIABLE|REMVARIABLE|ADDCOHORT|ADDCOHORT-AFTER|ADDCOHORT-BEFORE|REMCOHORT|MOVE|MOVE-AFTER|MOVE-BEFORE|SWITCH|COPYCOHORT|SPLITCOHORT|MERGECOHORTS|WITH|ENCL|JUMP|MOVE_AFTER|MOVE_BEFORE|ADDCOHORT_AFTER|ADDCOHORT_BEFORE')
MARK = re.compile(r' ((?:%s)(?:\([^()]*\))?(?::\d+)?(?::[A-Za-z][\w-]*)?)$' % KW)
ONE = re.compile(r'^([A-Z_-]+)(?:\(([^()]*)\))?(?::(\d+))?(?::([A-Za-z][\w-]*))?$')


def unmark(line):
    """(line without trace marks, marks)"""
    marks = []
    while True:
        m = MARK.search(line)
        if not m or (':' not in m.group(1)):
            return line, marks[::-1]
        marks.append(m.group(1))
        line = line[:m.start()]


def strip(out):
    """(text without the traces, [(line, marks, deleted)])"""
    keep, all_ = [], []
    for l in out.split('\n'):
        dele = l.startswith(';\t') or l.startswith('; "<')
        b, marks = unmark(l) if l.startswith('\t') or l.startswith(';\t') else (l, [])
        if l.startswith('\t') or dele:
            all_.append((b[1:] if l.startswith(';\t') else b[2:] if dele else b, marks, dele))
        if dele:
            continue
        keep.append(b)
    return '\n'.join(keep), all_


def canon(out):
    """Cohorts with their readings as a map from the tags to the mapping tags, whatever was merged."""
    items, cur = [], None
    for l in out.split('\n'):
        if l.startswith('"<'):
            cur = [l, []]
            items.append(cur)
        elif cur is not None and l.startswith('\t"'):
            cur[1].append([l])
        elif cur is not None and l.startswith('\t\t') and cur[1]:
            cur[1][-1].append(l)
        else:
            items.append(l)
            cur = cur if l.startswith('\t') else None
    res = []
    for x in items:
        if isinstance(x, str):
            res.append(x)
            continue
        m = {}
        for rd in x[1]:
            t = rd[0][1:].split(' ')
            key = (frozenset(y for y in t if y[0:1] != '@'), tuple((frozenset(z for z in s.split(' '))) for s in rd[1:]))
            m.setdefault(key, set()).update(y for y in t if y[0:1] == '@')
        res.append((x[0], m))
    return res


def rules_of(text):
    """line number -> [(type, name)] as written in the grammar"""
    r = {}
    for i, l in enumerate(text.split('\n'), 1):
        for m in re.finditer(r'(?<![\w(])(%s)(?::([A-Za-z][\w-]*))?(?= )' % KW, l):
            r.setdefault(i, []).append((m.group(1).replace('-', '_'), m.group(2)))
    return r


ALIAS = {'MOVE_AFTER': 'MOVE', 'MOVE_BEFORE': 'MOVE', 'ADDCOHORT_AFTER': 'ADDCOHORT', 'ADDCOHORT_BEFORE': 'ADDCOHORT', 'MAP': 'MAP'}


def check_marks(rules, marks, nameonly, fail):
    byname = {}
    for ln, l in rules.items():
        for ty, nm in l:
            if nm:
                byname.setdefault(nm, set()).add(ty)
    for m in marks:
        x = ONE.match(m)
        ty, ln, nm = x.group(1).replace('-', '_'), x.group(3), x.group(4)
        if ty == 'ENCL':
            continue
        ty = ALIAS.get(ty, ty)
        if ln is None:
            if not nameonly or ty not in byname.get(nm, ()):
                fail('the mark %s names no rule' % m)
        elif (ty, nm) not in rules.get(int(ln), ()) or nameonly and nm:
            fail('the mark %s names no rule: line %s has %s' % (m, ln, rules.get(int(ln))))


def grammar_and_text(src, cfgkw={}, **kw):
    cfg = rich.config(src, maxrd=3, **cfgkw)
    R = rich.Rich(src, cfg, **kw)
    g = R.grammar(8, 85)
    text = rich.stream(src, cfg, 25, 20, 10, 5)
    return g.text(), text, cfg


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'item %d: %r against %r' % (i, x, y)
    return 'lengths %d and %d' % (len(a), len(b))


def base_run(env, gt, text, args):
    d = env.d
    p = d.write('g.cg3', gt)
    r = d.run('vislcg3', ['-g', p] + args, text)
    if r.rc == -1000:
        raise Discard()
    return p, must(r, 'vislcg3', gt, text, args)


def run2(env, p, gt, text, args, what):
    r = env.d.run('vislcg3', ['-g', p] + args, text, 20000)
    if r.rc == -1000 and '--debug-rules' in args:  # (prints the whole window after every change: quadratic)
        raise Discard()
    return must(r, 'vislcg3 ' + what, gt, text, args), r.err.decode('utf8', 'replace')


def common_args(src):
    args = ['--max-runs', str(src.c([2, 1, 3]))]
    split = not src.p(35)
    if split:
        args.append('--split-mappings')
    if src.p(15):
        args += ['--num-windows', str(src.r(0, 3))]
    if src.p(8):
        args.append(src.c(['--dep-absolute', '--print-ids', '--print-dep', '--unique-tags', '--no-magic-readings', '--unsafe', '--always-span', '-e', '--unicode-tags', '--no-break']))
    if src.p(8):
        args += ['--soft-limit', '2', '--hard-limit', str(src.r(3, 5))]
    return args, split


def same(u, t, split, what, gt, text, args, extra=''):
    if t == u:
        return
    if not split:
        cu, ct = canon(u), canon(t)
        if cu == ct:
            return
        why = first_diff(cu, ct)
    else:
        why = first_diff(u.split('\n'), t.split('\n'))
    raise Violation('%s changed the analysis: %s' % (what, why), 'changed:' + what.split(' ')[0], case(gt, text, args) + '--- without\n%s--- with, diagnostics taken out\n%s%s' % (u, t, extra))


def trace(src, env):
    gt, text, cfg = grammar_and_text(src, parens=0)
    args, split = common_args(src)
    p, u = base_run(env, gt, text, args)
    opt = src.w([(6, ['--trace']), (2, ['--trace', '--trace-no-removed']), (2, ['--trace-name-only']), (1, ['--trace-encl'])])
    t, err = run2(env, p, gt, text, args + opt, ' '.join(opt))
    s, all_ = strip(t)
    same(u, s, split, 'trace', gt, text, args + opt, '--- traced\n' + t)
    rules = rules_of(gt)

    def fail(why):
        raise Violation(why, 'mark', case(gt, text, args + opt) + '--- traced\n' + t)
    marks = [m for _, ms, _ in all_ for m in ms]
    check_marks(rules, marks, opt == ['--trace-name-only'], fail)
    if split and '--trace-no-removed' in opt and any(d for _, _, d in all_):
        fail('--trace-no-removed printed a removed reading')
    return Info(bool(marks), gt + text + ' '.join(args + opt), ['deleted'] if any(d for _, _, d in all_) else ['marked'] if marks else [], {"grammar": gt, "input": text, "options": ' '.join(args + opt), "output": t})


def deleted(src, env):
    """Only disambiguation: kept and deleted readings together are the input."""
    gt, text, cfg = grammar_and_text(src, dict(subs=0), edit=0, deps=0, rels=0, move=0, vars=0, withs=0, delimit=0, unif=0, vstr=0, subs=0, null=0)
    gt = '\n'.join(l.replace(' UNMAPLAST', '') for l in gt.split('\n') if not re.search(r'SUBSTITUTE', l))
    text = '\n'.join(l for l in text.split('\n') if not re.match(r'^;|.*#\d+->|.*ID:\d', l))
    text = '\n'.join(one_map(l) for l in text.split('\n'))
    args = ['--split-mappings', '--max-runs', '5']
    p, u = base_run(env, gt, text, args)
    t, err = run2(env, p, gt, text, args + ['--trace'], '--trace')
    s, all_ = strip(t)
    same(u, s, True, 'trace', gt, text, args, '--- traced\n' + t)
    # per cohort, what is kept and what is marked deleted add up to what was read
    n = lambda ls: Counter(ls)
    want = n(norm(l) for l in text.split('\n') if re.match(r'^\t+"', l))
    got = n(norm(l) for l, _, d in all_ if l.startswith('\t') and l.lstrip('\t').startswith('"') and not magic(l))
    if want != got:
        raise Violation('kept and deleted readings are not the readings of the input: missing %s, extra %s' % (list((want - got))[:3], list((got - want))[:3]), 'deleted',
                        case(gt, text, args) + '--- traced\n' + t)
    kept = n(norm(l) for l in u.split('\n') if re.match(r'^\t+"', l))
    gone = n(norm(l) for l, _, d in all_ if d and l.startswith('\t'))
    if want - kept != gone and not any(magic(l) for l in kept):
        raise Violation('deleted readings %s are not those missing from the untraced output %s' % (list((gone - (want - kept)))[:3], list(((want - kept) - gone))[:3]), 'deleted', case(gt, text, args) + '--- traced\n' + t + '--- untraced\n' + u)
    for l, ms, d in all_:
        if d and not any(re.match(r'(SELECT|REMOVE|IFF)\b', m) for m in ms):
            raise Violation('reading %r is deleted but no rule is said to have done it' % l, 'deleted', case(gt, text, args) + '--- traced\n' + t)
    return Info(bool(gone), gt + text, ['deleted'] if gone else [], {"grammar": gt, "input": text, "output": t})


def one_map(l):
    if not l.startswith('\t'):
        return l
    t, seen = [], l.startswith('\t\t')
    for x in l.split(' '):
        if x[0:1] == '@':
            if seen:
                continue
            seen = True
        t.append(x)
    return ' '.join(t)


def norm(l):
    return ' '.join(l.split(' '))


def magic(l):
    return re.match(r'^\t"<', l) is not None


def verbose(src, env):
    gt, text, cfg = grammar_and_text(src)
    args, split = common_args(src)
    p, u = base_run(env, gt, text, args)
    lines = sorted(rules_of(gt))
    k = src.w([(3, 'rules'), (3, 'profile'), (2, 'verbose'), (1, 'debug')])
    if k == 'rules':
        a = ['--debug-rules', src.c(['1-999'] + [str(x) for x in lines])]
    elif k == 'profile':
        env.d.unlink('prof.sqlite')
        a = ['--profile', env.d.path('prof.sqlite')]
    elif k == 'verbose':
        a = src.c([['-v'], ['-v', '2'], ['--quiet'], ['-v', '0']])
        a = [''.join(a)] if len(a) == 2 and src.p(50) else a
        if a == ['-v', '2'] or a == ['-v', '0']:
            a = [''.join(a)]
    else:
        a = src.c([['-d'], ['-d2'], ['-d1']])
    if src.p(20):
        a.append('--trace')
    t, err = run2(env, p, gt, text, args + a, a[0])
    s, all_ = strip(t) if '--trace' in a else (t, [])
    same(u, s, split, {'rules': '--debug-rules', 'profile': '--profile'}.get(k, a[0]), gt, text, args + a)
    nt = bool(rules_of(gt)) and ('BEGIN RULE' in err or k != 'rules')
    if k == 'profile':
        check_profile(env, gt, text, args + a, all_ if '--trace' in a else None)
    return Info(nt and u != text, gt + text + ' '.join(args + a), [k], {"grammar": gt, "input": text, "options": ' '.join(args + a)})


def read_profile(env, gt, text, args):
    try:
        db = sqlite3.connect(env.d.path('prof.sqlite'))
        ent = db.execute('select type,id,grammar,b,e,num_match,num_fail,example_window from entries').fetchall()
        st = dict(db.execute('select key,value from strings').fetchall())
        rc = db.execute('select rule,context,num_match from rule_contexts').fetchall()
        db.close()
    except sqlite3.Error as e:
        raise Violation('the profile cannot be read: %s' % e, 'profile', case(gt, text, args))
    return ent, st, rc


def by_line(gt, ent):
    """line -> list of (id, match, fail, example)"""
    r = {}
    for ty, id_, g, b, e, nm, nf, ex in ent:
        if ty == 0:
            r.setdefault(gt[:b].count('\n') + 1, []).append((id_, nm, nf, ex))
    return r


def check_profile(env, gt, text, args, traced):
    ent, st, rc = read_profile(env, gt, text, args)

    def fail(why):
        raise Violation(why, 'profile', case(gt, text, args) + '\n'.join(map(repr, sorted(ent))))
    lines = by_line(gt, ent)
    rules = rules_of(gt)
    for ln, l in rules.items():
        if ln not in lines:
            fail('rule on line %d is not in the profile' % ln)
    for ln, l in lines.items():
        for id_, nm, nf, ex in l:
            if (nm > 0) != (ex != 0):
                fail('rule on line %d has %d matches and example window %d' % (ln, nm, ex))
            if ex and ex not in st:
                fail('example window of the rule on line %d does not exist' % ln)
    if traced is not None:
        for l, marks, d in traced:
            for m in marks:
                x = ONE.match(m)
                if x.group(3) and x.group(1) not in ('ENCL', 'IFF') and not (x.group(1) == 'SELECT' and 'PROTECT' in gt) and not any(nm for _, nm, _, _ in lines.get(int(x.group(3)), ())):
                    fail('%s left a mark but has no match in the profile' % m)
    ids = {id_: (nm, nf) for ty, id_, g, b, e, nm, nf, ex in ent if ty == 0}
    ctx = {id_: (nm, nf) for ty, id_, g, b, e, nm, nf, ex in ent if ty == 1}
    tot = Counter()
    for rule, c, n in rc:
        if rule not in ids:
            fail('rule %d with context %d does not exist' % (rule, c))
        if c in ctx:  # (contexts inside templates are not listed on their own)
            tot[c] += n
    for c, n in tot.items():
        if n != ctx[c][0]:
            fail('context %d matched %d times in all, but %d times over the rules' % (c, ctx[c][0], n))


def counts(src, env):
    """Rules that only mark: the profile counts exactly what the traces show."""
    cfg = rich.config(src, maxrd=3, empty=0, subs=0)
    R = rich.Rich(src, cfg, dis=0, edit=0, deps=0, rels=0, move=0, vars=0, withs=0, delimit=0, unif=0, vstr=0, subs=0, null=0, templates=0, deleted=0, sp=0)
    g = R.grammar(6, 85)
    gt = g.text()
    text = rich.stream(src, cfg)
    args = ['--split-mappings']
    env.d.unlink('prof.sqlite')
    a = ['--profile', env.d.path('prof.sqlite'), '--trace']
    p, u = base_run(env, gt, text, args)
    t, err = run2(env, p, gt, text, args + a, '--profile --trace')
    s, all_ = strip(t)
    same(u, s, True, 'profile', gt, text, args + a, '--- traced\n' + t)
    check_profile(env, gt, text, args + a, all_)
    ent, st, rc = read_profile(env, gt, text, args)
    lines = by_line(gt, ent)
    marks = Counter()
    for l, ms, d in all_:
        for m in ms:
            marks[int(ONE.match(m).group(3))] += 1
    # readings with the same tags are tried once for all of them
    dup = False
    cur = []
    for l in u.split('\n') + ['"<']:
        if l.startswith('"<'):
            dup |= len(set(cur)) != len(cur)
            cur = []
        elif l.startswith('\t'):
            cur.append(frozenset(x for x in l.split(' ') if not re.match(r'\t*zz\d+$|@', x)))
    rules = rules_of(gt)
    for ln in rules:
        nm = sum(x[1] for x in lines.get(ln, ()))
        if marks[ln] != nm and not (dup and marks[ln] > nm > 0):
            raise Violation('line %d matched %d times in the profile, but left %d marks' % (ln, nm, marks[ln]), 'counts', case(gt, text, args + a) + '--- traced\n' + t)
    # and each marker tag comes with the mark of its rule
    where = {}
    for i, l in enumerate(gt.split('\n'), 1):
        m = re.search(r'SUBSTITUTE\S* \(\*\) \((zz\d+)\)', l)
        if m:
            where[m.group(1)] = i
    for l, ms, d in all_:
        have = {int(ONE.match(m).group(3)) for m in ms}
        for x in l.split(' '):
            if x in where and where[x] not in have:
                raise Violation('%s was added to %r by the rule on line %d, which is not in its trace' % (x, l, where[x]), 'counts', case(gt, text, args + a) + '--- traced\n' + t)
    return Info(sum(marks.values()) > 1, gt + text, ['dup'] if dup else [], {"grammar": gt, "input": text, "output": t})


SUBS = [
    Sub("trace", trace, 5000, 60000, "the trace has at least one mark", timeout_ms=2000),
    Sub("deleted", deleted, 2500, 30000, "a reading was deleted", timeout_ms=2000),
    Sub("verbose", verbose, 4500, 60000, "the diagnostic was produced for a grammar that changes the stream", timeout_ms=2000),
    Sub("counts", counts, 2500, 30000, "rules left more than one mark", timeout_ms=2000),
]
TECHNIQUE = "property-based testing: metamorphic relations between runs with and without diagnostics on generated grammars and streams"
NOTE = "Every kind of rule, test and stream content is generated; the traced run with its marks and deleted readings taken out is compared with the untraced run, marks are looked up in the grammar text, kept and deleted readings are added up, and the profile database is compared with the traces. Exploration only."
