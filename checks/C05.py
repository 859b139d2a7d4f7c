"""Binary grammars and rewritten grammars behave like the text they came from."""
import re
from vlib.pbt import Sub, Info, Violation, Discard
from vlib.gr import *
from vlib import gen, rich
from vlib.common import must, case

TECHNIQUE = "property-based differential testing: generated grammars over the whole language, run from text, from cg-comp and --grammar-bin output, and from --grammar-out text"
NOTE = "random grammars and streams; the grammar's own text form is the oracle for its compiled and rewritten forms"


def decorate(src, g, cfg):
    """Settings that have to survive."""
    h, labels = [], []
    def on(p, name):
        if src.p(p):
            labels.append(name)
            return True
        return False
    if on(20, 'soft'):
        g.soft = ['"<b>"', 'sg']
    if on(10, 'subltr'):
        h.append('SUBREADINGS = LTR ;')
    if on(12, 'prefix'):
        h.append('MAPPING-PREFIX = %s ;' % src.c(['<', '§', 'n', '£']))
    if on(10, 'reopen'):
        h.append('REOPEN-MAPPINGS = @s @o ;')
    if on(8, 'preferred'):
        h.append('PREFERRED-TARGETS = N V sg ;')
    if on(10, 'parens'):
        h.append('PARENTHESES = %s ;' % src.c(['("<a>" "<cats>")', '(N V)', '("<a>" "<cats>") (sg pl)']))
    if on(12, 'options'):
        h.append('OPTIONS += %s ;' % ' '.join(src.sub(['addcohort-attach', 'no-inline-sets', 'no-inline-templates', 'safe-setparent', 'self-no-barrier'], 1, 2)))
    if on(10, 'cmdargs'):
        h.append('CMDARGS += %s ;' % src.c(['--num-windows 1', '--always-span', '--max-runs 1', '--no-mappings', '--soft-limit 3', '--print-ids']))
    if on(5, 'override'):
        h.append('CMDARGS-OVERRIDE += %s ;' % src.c(['--num-windows 0', '--max-runs 1']))
    if on(10, 'static'):
        names = [s.name for s in g.sets if s.name]
        if names:
            h.append('STATIC-SETS = %s ;' % src.c(names))
    if on(8, 'textdelims'):
        h.append('TEXT-DELIMITERS = /^<s/r /#/r ;')
    if on(6, 'options2'):
        h.append('STRICT-TAGS += N V ;') if 0 else None
    g.header = '\n'.join(x for x in h if x)
    return labels


def extras(src, g, R, cfg):
    """Rules the shared generator leaves out."""
    rs = [r for r in [g.before] + g.sections + [g.after] if r]
    if not rs:
        return []
    out = []
    if src.p(15):
        n = src.c(['there', 'here'])
        l = src.c(rs)
        i = src.r(0, len(l) - 1)
        l.insert(i, Raw('JUMP (%s) %s ;' % (n, R.ss.any(1).ref())))
        l.insert(src.r(i + 1, len(l)), Raw('ANCHOR %s ;' % n))
        out.append('anchor')
    if src.p(12):
        l = src.c(rs)
        l.insert(src.r(0, len(l)), Raw('%s (%s) %s ;' % (src.c(['REMVARIABLE', 'REMVARIABLE OUTPUT']), src.c(['v1', '/^v/r', 'V1i']), R.ss.any(1).ref())))
    if src.p(12):
        l = src.c(rs)
        l.insert(src.r(0, len(l)), Raw('SUBSTITUTE %s (%s) (*) IF (0 %s) ;' % ('(zy)', 'zx', R.ss.any(1).ref())))
    for _ in src.many(0, 3, 35):
        l = src.c(rs)
        a, b, c = R.ss.any(1).ref(), R.ss.any(1).ref(), R.ss.any(1).ref()
        p = src.c(['-1*', '1', '1*', '-1'])
        l.insert(src.r(0, len(l)), Raw(src.c([
            'MOVE WITHCHILD {a} {b} BEFORE ({p} {c}) ;', 'MOVE {b} AFTER WITHCHILD {a} ({p} {c}) ;', 'MOVE NOCHILD {b} AFTER ({p} {c}) ;', 'MOVE WITHCHILD {a} {b} BEFORE WITHCHILD {b} ({p} {c}) ;',
            'REMCOHORT WITHCHILD {a} {b} IF ({p} {c}) ;', 'REMCOHORT IGNORED WITHCHILD {a} {b} IF ({p} {c}) ;',
            'ADDCOHORT ("<nw>" "nw" added) AFTER WITHCHILD {a} {b} - (added) IF ({p} {c}) ;', 'ADDCOHORT ("<nw>" "nw" added *) BEFORE {b} - (added) ;',
            'COPYCOHORT (copied) EXCEPT (sg) {b} - (copied) TO BEFORE ({p} {c}) ;', 'COPYCOHORT (copied) {b} - (copied) TO AFTER WITHCHILD {a} ({p} {c}) ;', 'COPYCOHORT (copied) {b} - (copied) FROM AFTER ({p} {c}) ;',
            'SETPARENT {b} FROM ({p} {c}) (-1 {a}) ;', 'SETCHILD {b} FROM ({p}A {c} LINK 1 {a}) ;', 'SETCHILD REVERSE {b} TO ({p} {c}) ;',
            'ADDRELATION (r1) {b} FROM ({p} {c}) ;', 'SETRELATIONS (r1) (q1 q2) {b} TO ({p} {c}) (0 {a}) ;', 'REMRELATIONS (r1) (q1) {b} TO ({p} {c}) ;', 'ADDRELATION ("x$1"v) {b} TO ({p} {c}) ;',
            'REPLACE (rep *) {b} IF ({p} {c}) ;', 'APPEND ("app" app) ("app2" @x) {b} - ("app") ;', 'COPY (cop) EXCEPT {a} {b} - (cop) AFTER {c} ;', 'ADD (ad1 ad2) BEFORE {a} {b} ;', 'MAP (@m1 @m2) AFTER {a} {b} IF ({p} {c}) ;',
            'UNMAP UNSAFE {b} ;', 'PROTECT {b} IF ({p} {c}) ;', 'UNPROTECT {b} ;', 'RESTORE (x) {b} ;', 'RESTORE DELAYED (x) {b} ;', 'IFF VARYORDER {b} IF ({p} {c}) ;', 'SELECT VARYORDER LOOKDELAYED {b} ({p} {c}) ;',
            'REMOVE LOOKDELETED {b} IF ({p} {c}) ;', 'REMOVE LOOKIGNORED {b} IF ({p} {c}) ;', 'SELECT KEEPORDER {b} IF ({p} {c}) ({p} {a}) ;', 'REMOVE ENCL_INNER {b} ;', 'ADD ENCL_FINAL (encl) {b} ;', 'ADD ENCL_OUTER (enclo) {b} ;',
            'SETPARENT {b} TO ({p}N {c} BARRIER {a}) ;', 'REMOVE {b} IF ({p} {c} CBARRIER {a}) ;', 'SWITCH {b} WITH ({p} {c}) ;', 'SPLITCOHORT ("<s1>" "s1" part 1->2 "<s2>" "s2" part 2->p) {b} - (part) ;',
            'SPLITCOHORT ("<s1>" "s1" part c->p "<s2>" "s2" part R:*) {b} - (part) ;', 'SPLITCOHORT ("<s1>" "s1" part *->p "<s2>" "s2" part 2->1 R:r1) {b} - (part) ;',
            'MERGECOHORTS ("<mm>" "mm" merged) {b} - (merged) WITH ({p} {c}) ;', 'EXECUTE ({p} {c}) ;' if 0 else 'DELIMIT {b} IF (-1 {c}) ;', 'SUBSTITUTE (sg) (pl) BEFORE {a} {b} ;' if 0 else 'SUBSTITUTE IGNORED (sg) (plz) {b} ;' if 0 else 'SUBSTITUTE ("a" sg) ("sub" subd) {b} ;',
            'ADD (tgt) (*) IF ({p} {a} LINK 0 {b} LINK *1 _TARGET_) ;', 'ADD (att) (*) IF ({p} {a}) ({p}X {b} LINK -1x {c}) ;', 'ADD (jc) (*) IF ({p}w {a}) ;', 'ADD:nm-m (jc) (*) IF ({p} {a}) ;',
            'ADD (deps) {b} IF (cc {a}) (NOT p {c}) ;', 'ADD (deps) {b} IF (*p {a}) ;', 'ADD (deps) {b} IF (ALL c {a}) (NONE c {c}) ;', 'ADD (deps) {b} IF (lc {a} OR rrs {b}) ;', 'ADD (deps) {b} IF (llc {a}) ;', 'ADD (deps) {b} IF (r:r1 {a} LINK r:* {c}) ;', 'ADD (deps) {b} IF (ppS {a}) ;',
            'ADD (spanz) {b} IF (-1*W {a}) (1*< {b}) ;', 'ADD (spanz) {b} IF (0*> {a}) ;', 'ADD (ppp) {b} IF (L {a}) ;', 'ADD (ppp) {b} IF (R {a}) ;', 'ADD (bag) {b} IF (B {a}) ;', 'ADD (sbr) {b} IF (0/1 {a}) ;', 'ADD (sbr) {b} IF (0/-1 {a}) (1/* {c}) ;',
            'ADD (inl) {b} IF (({p} {a}) OR ({p} {c} LINK 1 {b})) ;', 'ADD (inl) {b} IF (NEGATE {p} {a} LINK NOT 1 {c}) ;', 'ADD (inl) {b} IF (({p} {a} OR 1 {c})) ;' if 0 else 'ADD (inl) {b} IF (1* {a} LINK (({p} {c}) OR (2 {b}))) ;', 'ADD (inl) {b} IF ({p}T {a}) ;', 'ADD (inl) {b} IF ({p}t {a}) ;',
            'ADD (inl) {b} IF (-1**o {a}) ;', 'ADD (inl) {b} IF (**1O {a}) ;', 'ADD (inl) {b} IF (@1 {a}) (@-1 {c}) ;', 'ADD (c) {b} IF ({p}wC {a}) (0 _C1_) ;', 'ADD (d) {b} IF ({p}D {a}) ;', 'ADD (d) {b} IF ({p}d {a}) ;', 'ADD (d) {b} IF ({p}I {a}) ;', 'ADD (d) {b} IF (jM0 {a}) ;' if 0 else 'ADD (d) {b} IF (1 {a} LINK jT1 {c}) ;',
        ]).format(a=a, b=b, c=c, p=p)))
        out.append('extra')
    return out


class Raw(Rule):
    def __init__(self, s):
        Rule.__init__(self, 'RAW', ANY)
        self.s_ = s

    __slots__ = ('s_',)

    def text(self):
        return self.s_


def make(src):
    cfg = rich.config(src, maxcoh=4, numeric=src.c([0, 0, 0, 50]))
    R = rich.Rich(src, cfg, jump=10, loops=10, nested_templates=30, unif=12, vstr=12, rels=12, deps=20, subs=20)
    g = R.grammar(7, 85)
    labels = decorate(src, g, cfg)
    labels += extras(src, g, R, cfg)
    text = rich.stream(src, cfg, deps=30, rels=20, text=6, cmds=4)
    args = ['--max-runs', str(src.c([2, 1, 3]))]
    if src.p(50):
        args.append('--split-mappings')
    if src.p(10):
        args += src.c([['--num-windows', '0'], ['--num-windows', '1'], ['--sections', '1'], ['--sections', '2'], ['--rules', '1-30'], ['--rule', 'first'], ['--prefix', '%'], ['--no-mappings'], ['--no-corrections'], ['--always-span'], ['--print-ids'], ['--dep-delimit', '5'], ['--nrules', 'se|r'], ['--nrules-v', 'fi']])
    return g.text(), text, args, labels


def runs(env, p, gt, text, args, what):
    r = env.d.run('vislcg3', ['-g', p] + args, text, 6000)
    return r, must(r, what, gt, text, args)


def base(env, gt, text, args):
    d = env.d
    p = d.write('g.cg3', gt)
    r = d.run('vislcg3', ['-g', p] + args, text, 2000)
    if r.rc == -1000:
        raise Discard()
    if r.rc != 0:
        if b'Error' in r.err:      # not a grammar the parser accepts
            raise Discard()
        must(r, 'vislcg3', gt, text, args)
    return p, r.out.decode('utf8', 'replace')


def differ(a, b, what, gt, text, args, more=''):
    if a == b:
        return
    al, bl = a.split('\n'), b.split('\n')
    i = next((i for i in range(min(len(al), len(bl))) if al[i] != bl[i]), min(len(al), len(bl)))
    raise Violation('%s: line %d is %r, from the text grammar %r' % (what, i + 1, bl[i] if i < len(bl) else None, al[i] if i < len(al) else None), 'differs', case(gt, text, args) + '--- output\n' + b + more)


def nontrivial(out, text):
    return out.strip() != text.strip()


def binary(src, env):
    gt, text, args, labels = make(src)
    if '--prefix' in args:      # documented: must be the one the grammar was compiled with
        raise Discard()
    d = env.d
    p, want = base(env, gt, text, args)
    d.unlink('g.cg3b')
    q = d.path('g.cg3b')
    r = d.run('cg-comp', [p, q], b'')
    must(r, 'cg-comp', gt, text, args)
    b1 = d.read('g.cg3b')
    _, got = runs(env, q, gt, text, args, 'vislcg3 with the compiled grammar')
    differ(want, got, 'compiled grammar', gt, text, args)
    if src.p(30):
        must(d.run('cg-comp', [p, q], b''), 'cg-comp', gt, text, args)
        if d.read('g.cg3b') != b1:
            raise Violation('compiling twice gives different files', 'deterministic', case(gt, text, args))
    if src.p(30):
        # also rewritten by the program itself, from text and from binary
        d.unlink('h.cg3b')
        must(d.run('vislcg3', ['-g', src.c([p, q]), '--grammar-only', '--grammar-bin', d.path('h.cg3b')], b''), 'vislcg3 --grammar-bin', gt, text, args)
        _, got = runs(env, d.path('h.cg3b'), gt, text, args, 'vislcg3 with the grammar written by --grammar-bin')
        differ(want, got, '--grammar-bin', gt, text, args)
    if src.p(30):
        # traces name the same rules
        _, a = runs(env, p, gt, text, args + ['--trace'], 'vislcg3 --trace')
        _, b = runs(env, q, gt, text, args + ['--trace'], 'vislcg3 --trace with the compiled grammar')
        differ(a, b, 'compiled grammar, traced', gt, text, args + ['--trace'])
    return Info(nontrivial(want, text), gt + text, labels, gt)


def rewritten(src, env):
    gt, text, args, labels = make(src)
    args = [a for a in args]
    for k in ('--rules', '--sections'):     # rules have other lines there, and sections without rules are gone
        if k in args:
            i = args.index(k)
            del args[i:i + 2]
    d = env.d
    p, want = base(env, gt, text, args)
    q = p
    names = ['o1.cg3', 'o2.cg3']
    for n in names[:src.w([(4, 1), (1, 2)])]:
        d.unlink(n)
        must(d.run('vislcg3', ['-g', q, '--grammar-only', '--grammar-out', d.path(n)], b''), 'vislcg3 --grammar-out', gt, text, args)
        q = d.path(n)
        o = d.read(n).decode('utf8', 'replace')
        r = d.run('vislcg3', ['-g', q] + args, text, 6000)
        if r.rc:
            must(r, 'vislcg3 with the rewritten grammar', gt + '--- rewritten\n' + o, text, args)
        differ(want, r.out.decode('utf8', 'replace'), 'rewritten grammar', gt, text, args, '--- rewritten\n' + o)
    return Info(nontrivial(want, text), gt + text, labels, gt)


SUBS = [
    Sub("binary", binary, 4500, 200000, "the grammar changed the stream"),
    Sub("rewritten", rewritten, 4000, 200000, "the grammar changed the stream"),
]
