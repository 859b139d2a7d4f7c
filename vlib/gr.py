"""Grammar syntax trees and their textual form."""
import re

NUM_RX = re.compile(r'^<([^<>=:!]+)([<>=:!]+)(-?[0-9.]+|MAX|MIN)>$')
NMIN, NMAX = -281474976710656.0, 281474976710655.0


def esc(s):
    """Escape a literal tag for use in a grammar file."""
    out = []
    for ch in s:
        if ch in '\\();#' or ch.isspace():
            out.append('\\')
        out.append(ch)
    return ''.join(out)


class Tag:
    """A tag pattern in a grammar."""
    __slots__ = ("kind", "s", "ff", "rx", "num", "key", "val", "ic")

    def __init__(self, kind, s, ff=False, ic=False, key=None, val=None):
        self.kind, self.s, self.ff, self.ic, self.key, self.val = kind, s, ff, ic, key, val
        self.rx = self.num = None
        if kind == 'rx':        # quoted or <>: anchored
            self.rx = re.compile('^(?:' + s + ')$', re.I if ic else 0)
        elif kind == 'srx':     # /.../: search
            self.rx = re.compile(s, re.I if ic else 0)
        elif kind == 'num':
            m = NUM_RX.match(s)
            self.num = numparse(s)
            assert self.num, s

    def text(self):
        p = '^' if self.ff else ''
        k = self.kind
        if k == 'lit' or k == 'num' or k == 'sp':
            return p + esc(self.s)
        if k == 'icase':
            if self.s[0] == '"' or self.s[0] == '<':
                return p + esc(self.s) + 'i'
            return p + '/' + esc(self.s) + '/i'
        if k in ('rx', 'rxany'):
            return p + rxesc(self.s) + ('ri' if self.ic else 'r')
        if k == 'srx':
            return p + '/' + rxesc(self.s) + '/' + ('ri' if self.ic else 'r')
        if k in ('var', 'lvar'):
            t = ('VAR:' if k == 'var' else 'LVAR:') + self.key.text()
            if self.val is not None:
                t += '=' + self.val.text()
            return p + t
        if k == 'raw':
            return p + self.s
        if k == 'vstr':
            return (esc(self.s) + 'v') if self.s[0] in '"<' else 'VSTR:' + esc(self.s)
        raise ValueError(k)

    def __repr__(self):
        return self.text()


def rxesc(s):
    return ''.join('\\' + c if c in '\\();# ' else c for c in s)


def numparse(s):
    m = NUM_RX.match(s)
    if not m:
        return None
    key, op, val = m.groups()
    o = {'<': '<', '>': '>', '=': '=', ':': '=', '!': '!='}[op[0]]
    if len(op) > 1:
        a, b = op[0], op[1]
        if b in '=:':
            o = {'<': '<=', '>': '>=', '!': '!='}.get(a, o)
        elif b == '>':
            o = {'=': '>=', ':': '>=', '<': '!='}.get(a, o)
        elif b == '<':
            o = {'=': '<=', ':': '<=', '>': '!='}.get(a, o)
    if val == 'MAX':
        v = NMAX
    elif val == 'MIN':
        v = NMIN
    else:
        try:
            v = float(val)
        except ValueError:
            return None
        v = max(NMIN, min(NMAX, v))
    return key, o, v


def L(s):
    return Tag('lit', s)


class Set:
    """kind: list (elems: list of list of Tag), set (members, ops), any, unif ($$ or && wrapper of member)."""
    __slots__ = ("kind", "name", "elems", "members", "ops", "inline", "uid", "num")
    _n = 0

    def __init__(self, kind, name=None, elems=None, members=None, ops=None, uid=None):
        self.kind, self.name, self.elems, self.members, self.ops = kind, name, elems or [], members or [], ops or []
        self.inline = name is None
        self.uid = uid      # for $$/&&: '$$' or '&&' or '&&1:'

    def ref(self):
        if self.kind == 'unif':
            return self.uid + self.members[0].name
        if self.name:
            return self.name
        if self.kind == 'any':
            return '(*)'
        if self.kind == 'list':
            if len(self.elems) == 1:
                return '(' + ' '.join(t.text() for t in self.elems[0]) + ')'
            raise ValueError("inline list with alternatives")
        return self.expr()

    def expr(self):
        out = [self.members[0].ref()]
        for o, m in zip(self.ops, self.members[1:]):
            out += [o, m.ref()]
        return ' '.join(out)

    def define(self):
        if self.kind == 'list':
            return "LIST %s = %s ;" % (self.name, ' '.join(elem_text(e) for e in self.elems))
        if self.kind == 'any':
            return "LIST %s = (*) ;" % self.name
        return "SET %s = %s ;" % (self.name, self.expr())

    def __repr__(self):
        return self.ref()


def elem_text(e):
    return e[0].text() if len(e) == 1 else '(' + ' '.join(t.text() for t in e) + ')'


def lst(*tags, name=None):
    return Set('list', name, [[t if isinstance(t, Tag) else L(t)] for t in tags])


def comp(*tags):
    return Set('list', None, [[t if isinstance(t, Tag) else L(t) for t in tags]])


ANY = Set('any')


class Test:
    __slots__ = ("off", "scan", "abs", "neg", "nt", "careful", "span", "self_", "nb", "opass", "mark", "jump", "attach",
                 "dele", "dela", "ign", "act", "dep", "lr", "all", "none", "rel", "bag", "par", "sub", "target", "barrier", "cbarrier", "link", "w",
                 "raw", "_seen")

    def __init__(self, target, off=0, **kw):
        for k in Test.__slots__:
            setattr(self, k, None)
        self.target = target
        self.off = off
        self.scan = 0
        self.span = ''
        self.sub = 0
        for k, v in kw.items():
            setattr(self, k, v)

    def postext(self):
        if self.raw:
            return self.raw
        s = ''
        if self.abs:
            s += '@'
        if self.scan:
            s += '*' * self.scan
        if self.dep:
            s += self.dep
        if self.par:
            s += self.par
        if self.bag:
            s += 'B'
        if not (self.dep or self.rel or self.bag or self.par):
            s += str(self.off)
        if self.lr and self.rel:
            s += self.lr
        if self.self_:
            s += 'S'
        if self.nb:
            s += 'N'
        if self.careful:
            s += 'C'
        s += self.span
        if self.opass:
            s += self.opass
        if self.mark:
            s += 'X'
        if self.jump:
            s += self.jump
        if self.attach:
            s += 'A'
        if self.w:
            s += 'w'
        if self.dele:
            s += 'D'
        if self.dela:
            s += 'd'
        if self.ign:
            s += 'I'
        if self.act:
            s += self.act
        if self.lr and not self.rel:
            s += self.lr
        if self.rel:
            s += 'r:' + (self.rel if isinstance(self.rel, str) else self.rel.text())
        if self.sub:
            s += '/' + (str(self.sub) if self.sub != 32767 else '*')
        return s

    def text(self):
        s = ''
        if self.neg:
            s += 'NEGATE '
        if self.all:
            s += 'ALL '
        if self.none:
            s += 'NONE '
        if self.nt:
            s += 'NOT '
        s += self.postext() + ' ' + self.target.ref()
        if self.cbarrier:
            s += ' CBARRIER ' + self.cbarrier.ref()
        if self.barrier:
            s += ' BARRIER ' + self.barrier.ref()
        if self.link:
            s += ' LINK ' + self.link.text()
        return s


class Rule:
    __slots__ = ("type", "at", "name", "flags", "target", "wf", "tests", "tags", "tags2", "where", "spot", "cs1", "cs2", "dtarget", "dep_tests", "sub",
                 "to", "num", "line", "rules", "section", "extra", "dyn")
    noise = ''      # optional word in front of the target

    def __init__(self, type, target, **kw):
        for k in Rule.__slots__:
            setattr(self, k, None)
        self.type, self.target = type, target
        self.flags, self.tests, self.dep_tests = [], [], []
        self.sub = 0
        for k, v in kw.items():
            setattr(self, k, v)

    def has(self, f):
        return f in self.flags

    def text(self):
        s = ''
        if self.wf:
            s += self.wf.text() + ' '
        s += self.type
        if self.name:
            s += ':' + self.name
        for f in self.flags:
            s += ' ' + f
        if self.sub:
            s += ' SUB:' + (str(self.sub) if self.sub != 32767 else '*')
        tl = lambda x: x.ref() if isinstance(x, Set) else '(' + ' '.join(t.text() if isinstance(t, Tag) else esc(t) for t in x) + ')'
        ty = self.type
        if ty in ('ADD', 'MAP', 'COPY'):
            s += ' ' + tl(self.tags)
            if ty == 'COPY' and self.tags2 is not None:
                s += ' EXCEPT ' + tl(self.tags2)
            if self.where:
                s += ' ' + self.where + ' ' + self.spot.ref()
        elif ty in ('REPLACE', 'APPEND', 'SETVARIABLE', 'REMVARIABLE', 'RESTORE', 'JUMP'):
            if self.tags is not None:
                s += ' ' + tl(self.tags)
            if ty == 'RESTORE':
                s += ' ' + self.cs1.ref()
            if ty == 'SETVARIABLE':
                s += ' ' + tl(self.tags2)
            if ty == 'REPLACE' and self.tags2 is not None:
                s += ' EXCEPT ' + tl(self.tags2)
        elif ty in ('SUBSTITUTE',):
            s += ' ' + tl(self.tags2) + ' ' + tl(self.tags)
        elif ty in ('ADDRELATION', 'SETRELATION', 'REMRELATION'):
            s += ' ' + tl(self.tags)
        elif ty in ('ADDRELATIONS', 'SETRELATIONS', 'REMRELATIONS'):
            s += ' ' + tl(self.tags) + ' ' + tl(self.tags2)
        elif ty in ('ADDCOHORT', 'MERGECOHORTS', 'SPLITCOHORT'):
            s += ' ' + tl(self.tags)
            if self.where:
                s += ' ' + self.where
        elif ty == 'COPYCOHORT':
            s += ' ' + tl(self.tags)
            if self.tags2 is not None:
                s += ' EXCEPT ' + tl(self.tags2)
        s += Rule.noise
        if ty in ('ADDCOHORT', 'MOVE', 'REMCOHORT', 'COPYCOHORT', 'SWITCHPARENT') and self.cs1:
            s += ' WITHCHILD ' + self.cs1.ref()
        s += ' ' + self.target.ref()
        if self.tests:
            s += ' IF' + ''.join(' (' + t.text() + ')' for t in self.tests)
        if self.to:
            s += ' ' + self.to
            if self.cs2:
                s += ' WITHCHILD ' + self.cs2.ref()
            s += ''.join(' (' + t.text() + ')' for t in self.dep_tests)
        if self.rules is not None:
            s += ' {\n' + ''.join('  ' + r.text() + '\n' for r in self.rules) + '}'
        return s + ' ;'


class Grammar:
    def __init__(self):
        self.sets = []
        self.before = []        # BEFORE-SECTIONS rules
        self.sections = []      # list of lists
        self.after = []
        self.null = []
        self.delims = ['"<.>"']
        self.soft = None
        self.header = ''
        self.prefix = '@'

    def text(self):
        out = []
        if self.delims:
            out.append("DELIMITERS = %s ;" % ' '.join(d.text() if isinstance(d, Tag) else esc(d) for d in self.delims))
        if self.soft:
            out.append("SOFT-DELIMITERS = %s ;" % ' '.join(d.text() if isinstance(d, Tag) else esc(d) for d in self.soft))
        if self.header:
            out.append(self.header)
        for s in self.sets:
            out.append(s.define())
        n = 0
        line = sum(x.count('\n') + 1 for x in out)

        def emit(t):
            nonlocal line
            out.append(t)
            line += t.count('\n') + 1

        def rules(rs, sec):
            nonlocal n
            for r in rs:
                r.line = line + 1
                r.num = n
                r.section = sec
                n += 1
                emit(r.text())
        if self.before:
            emit("BEFORE-SECTIONS")
            rules(self.before, -1)
        for i, sec in enumerate(self.sections):
            emit("SECTION")
            rules(sec, i)
        if self.after:
            emit("AFTER-SECTIONS")
            rules(self.after, -2)
        if self.null:
            emit("NULL-SECTION")
            rules(self.null, -3)
        return '\n'.join(out) + '\n'
