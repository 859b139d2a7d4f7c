"""Reference interpreter for CG-3: a direct, cache-free reading of the manual.

Windows are lists of cohorts; cohort 0 is the >>> cohort. Every rule is tried on every cohort on every pass.
"""
from .gr import Tag, Set, numparse, NMIN, NMAX

NOPARENT = -1


class Rd:
    __slots__ = ("tags", "base", "mapping", "mapped", "number", "noprint", "prot", "deleted", "hits", "sub", "coh", "active", "mt", "mx")

    def __init__(self, coh):
        self.tags = []
        self.base = None
        self.mapping = None
        self.mapped = False
        self.number = 0
        self.noprint = False
        self.prot = False
        self.deleted = False
        self.hits = []
        self.sub = None
        self.coh = coh
        self.active = False
        self.mt = self.mx = False

    def copy(self):
        r = Rd(self.coh)
        for k in ("base", "mapping", "mapped", "number", "noprint", "prot", "deleted", "mt", "mx"):
            setattr(r, k, getattr(self, k))
        r.tags = list(self.tags)
        r.hits = list(self.hits)
        if self.sub:
            r.sub = self.sub.copy()
        return r

    def chain(self):
        r = self
        while r:
            yield r
            r = r.sub

    def plain(self):
        return frozenset(t for t in self.tags if t != self.mapping)

    def full(self):
        """Identity used to decide whether an edit changed the reading."""
        return (self.plain(), self.mapping, self.sub.full() if self.sub else None)


class Coh:
    __slots__ = ("wf", "static", "readings", "deleted", "delayed", "ignored", "text", "win", "num", "gid", "parent", "depself", "rels", "related", "removed", "enclosed",
                 "ignoredc", "children", "wread", "prev", "next", "wblank", "pl", "pr", "inwin", "keep", "rels_in", "parent_in", "depdone")

    def __init__(self, wf):
        self.wf = wf
        self.static = []
        self.wread = None
        self.readings = []
        self.deleted = []
        self.delayed = []
        self.ignored = []
        self.text = ''
        self.win = None
        self.num = 0
        self.gid = 0
        self.parent = NOPARENT      # gid of the parent, 0 for the root
        self.depself = 0
        self.children = []
        self.rels = {}
        self.related = False
        self.removed = False
        self.enclosed = 0
        self.ignoredc = False
        self.pl = self.pr = None
        self.keep = []
        self.rels_in = {}
        self.parent_in = None
        self.depdone = False

    def append(self, rd):
        if rd.number == 0:
            rd.number = len(self.readings) * 1000 + 1000
        rd.coh = self
        self.readings.append(rd)
        if len(self.readings) > 80:
            raise TooLong()

    def minmax(self, key):
        vals = []
        for r in self.readings:
            for x in r.chain():
                for t in x.tags:
                    n = numparse(t)
                    if n and n[0] == key:
                        vals.append(n[2])
                break
        return (min(vals), max(vals)) if vals else (NMIN, NMAX)


class Win:
    def __init__(self):
        self.cohorts = []
        self.all = []
        self.text = ''
        self.post = ''
        self.prev = self.next = None
        self.vars_set = {}
        self.vars_rem = set()
        self.vars_out = []
        self.flush = False
        self.bag = None
        self.number = 0
        self.has_encl = False
        self.printed = False
        self.hit_external = set()


def is_base(t):
    return len(t) >= 2 and t[0] == '"' and t[-1] == '"' and not is_wf(t)


def is_wf(t):
    return len(t) > 4 and t[0] == '"' and t[-1] == '"' and t[1] == '<' and t[-2] == '>'


class Delimited(Exception):
    pass


class Ctx:
    """One rule attempt on one reading."""
    __slots__ = ("cohort", "reading", "sub", "mark", "attach", "attach_rd", "attach_sub", "unif", "usets", "caps", "is_with", "context", "capkey")

    def __init__(self):
        self.cohort = self.reading = self.sub = None
        self.mark = None
        self.attach = self.attach_rd = self.attach_sub = None
        self.unif, self.usets, self.caps = {}, {}, []
        self.is_with = False
        self.context = []

    def copy(self):
        c = Ctx()
        for k in Ctx.__slots__:
            if k != 'capkey':
                setattr(c, k, getattr(self, k))
        c.unif, c.usets, c.caps = dict(self.unif), dict(self.usets), list(self.caps)
        c.context = list(self.context)
        return c


TRUTH = {
    ('=', '='): lambda x, y: x == y, ('=', '!='): lambda x, y: x != y, ('=', '<'): lambda x, y: x < y, ('=', '>'): lambda x, y: x > y,
    ('=', '<='): lambda x, y: x <= y, ('=', '>='): lambda x, y: x >= y,
    ('<', '!='): lambda x, y: True, ('<', '<'): lambda x, y: True, ('<', '>'): lambda x, y: x > y, ('<', '<='): lambda x, y: True,
    ('<', '>='): lambda x, y: x > y,
    ('>', '!='): lambda x, y: True, ('>', '>'): lambda x, y: True, ('>', '<='): lambda x, y: x < y, ('>', '>='): lambda x, y: True,
    ('<=', '!='): lambda x, y: True, ('<=', '<='): lambda x, y: True, ('<=', '>='): lambda x, y: x >= y,
    ('>=', '!='): lambda x, y: True, ('>=', '>='): lambda x, y: True,
    ('!=', '!='): lambda x, y: x == y,
}


def truth(a, x, b, y):
    f = TRUTH.get((a, b))
    if f:
        return f(x, y)
    return TRUTH[(b, a)](y, x)


class Opts:
    def __init__(self, **kw):
        self.unsafe = False
        self.num_windows = 2
        self.always_span = False
        self.no_before = self.no_sections = self.no_after = False
        self.max_runs = 0
        self.no_mappings = self.no_corrections = False
        self.no_pass_origin = False
        self.split_mappings = False
        self.trace = False
        self.rules = None           # set of allowed rule numbers
        self.sections = None
        self.prefix = '@'
        self.deps = False
        self.rel = False
        self.unicode = False
        self.show_end = False
        self.unique = False
        self.loop = False
        self.cross = True
        self.magic = True
        self.print_ids = False
        self.pass_limit = 100
        self.parens = []
        self.soft_limit = 300
        self.hard_limit = 500
        self.dep_delimit = 0
        self.text_delims = []
        self.dep_original = False
        self.dep_absolute = False
        self.__dict__.update(kw)


class TooLong(Exception):
    """The case does not settle; outside the property's domain."""


class Engine:
    def __init__(self, grammar, opts):
        self.g = grammar
        self.o = opts
        self.vars = {'_MPREFIX': opts.prefix}
        self.events = {}
        self.gid = 0
        self.cmap = {}
        self.steps = 0
        self.par_left_pos = self.par_right_pos = 0
        self.par_left_tag = self.par_right_tag = None
        self.did_final = False
        self.current = None
        self.stack = []
        self.rule_target = None
        self.seen_deep = set()
        self.dep_high = 0

    def ev(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    # ---- readings -------------------------------------------------------
    def is_map(self, t):
        return t[:1] == self.o.prefix

    def add_tag(self, rd, t):
        rd.tags.append(t)
        if len(rd.tags) > 100:
            raise TooLong()
        if self.is_map(t):
            rd.mapping = t
        if rd.base is None and is_base(t):
            rd.base = t
        if self.o.parens:
            for a, b in self.o.parens:
                if t == a:
                    rd.coh.pl = t
                if t == b:
                    rd.coh.pr = t

    def del_tag(self, rd, t):
        rd.tags = [x for x in rd.tags if x != t]
        if rd.mapping == t:
            rd.mapping = None
        if rd.base == t:
            rd.base = None

    def reflow(self, rd):
        rd.mapping = None
        for t in rd.tags:
            if rd.base is None and is_base(t):
                rd.base = t
            if self.is_map(t):
                rd.mapping = t

    def split_mappings(self, mappings, coh, rd, mapped):
        mappings = [m for m in mappings]
        rest = []
        for m in mappings:
            if self.is_map(m):
                rest.append(m)
            else:
                self.add_tag(rd, m)
        mappings = rest
        if rd.mapping:
            mappings.append(rd.mapping)
            self.del_tag(rd, rd.mapping)
        if not mappings:
            return
        tag = mappings.pop()
        i = len(mappings)
        if mappings and any(q is rd for r in coh.readings for q in (r.sub.chain() if r.sub else ())):
            raise TooLong()     # several mapping tags on a sub-reading: not documented
        pl = rd.plain()
        for m in mappings:
            if any(r.plain() == pl and r.mapping == m for r in coh.readings):
                continue
            nr = rd.copy()
            for q in nr.chain():
                q.prot = False
            nr.mapped = mapped
            nr.number = (rd.number - i) & 0xffffffff
            i -= 1
            self.add_tag(nr, m)
            nr.mapping = m
            coh.append(nr)
        rd.mapped = mapped
        self.add_tag(rd, tag)
        rd.mapping = tag

    def get_sub(self, rd, n):
        if n == 0:
            return rd
        if n == 32767:
            if rd.sub is None:
                return rd
            r = rd.copy()
            r.sub = None
            x = rd.sub
            while x:
                r.tags = r.tags + [None] + x.tags
                r.mapped = r.mapped or x.mapped
                r.mapping = x.mapping or r.mapping
                x = x.sub
            return r
        ch = list(rd.chain())
        if n > 0:
            return ch[n] if n < len(ch) else None
        if len(ch) == 1:
            return None
        k = len(ch) + n
        return ch[k] if 0 <= k else None

    # ---- sets -----------------------------------------------------------
    def match_tag(self, t, rd, unif=False):
        k = t.kind
        if t.ff or k == 'lit':
            return t.s in rd.tags
        if k == 'icase':
            cf = t.s.casefold()
            return any(x is not None and x.casefold() == cf for x in rd.tags)
        if k == 'rx' or k == 'srx':
            for x in sorted(set(x for x in rd.tags if x is not None)):
                m = t.rx.search(x)
                if m:
                    if t.rx.groups:
                        if self.stack:
                            self.stack[-1].caps.extend(g or '' for g in m.groups())
                    return True
            return False
        if k == 'rxany':
            if t.s == '".*"':
                m = rd.base
                slot = '#base'
            elif t.s == '"<.*>"':
                m = rd.coh.wf
                slot = '#wf'
            else:
                c = [x for x in rd.tags if x and x[0] == '<' and x[-1] == '>']
                m = c[0] if c else None
                slot = '#txt'
            if not m:
                return False
            if unif:
                u = self.stack[-1].unif
                if slot in u:
                    return u[slot] == m
                u[slot] = m
            return True
        if k == 'num':
            key, op, val = t.num
            if val <= NMIN:
                val = rd.coh.minmax(key)[0]
            elif val >= NMAX:
                val = rd.coh.minmax(key)[1]
            for x in rd.tags:
                if x is None:
                    continue
                n = numparse(x)
                if n and n[0] == key and truth(op, val, n[1], n[2]):
                    return True
            return False
        if k in ('var', 'lvar'):
            v = self.vars
            if k == 'lvar' and rd.coh.win is not self.current:
                v = rd.coh.win.vars_set
            keys = [x for x in v if self.val_match(t.key, x)]
            if not keys:
                return False
            if t.val is None:
                return True
            return self.val_match(t.val, v[keys[0]])
        if k == 'vstr':
            return varstring(t.s, self.stack[-1].caps) in rd.tags
        if k == 'sp':
            s = t.s
            if s == '_TARGET_':
                return self.rule_target is not None and rd.coh is self.rule_target
            if s == '_MARK_':
                return rd.coh is self.get_mark()
            if s == '_ATTACHTO_':
                return rd.coh is self.stack[-1].attach
            if s == '_SAME_BASIC_':
                return rd.plain() == self.same_basic
            if s == '_LEFT_':
                return self.par_left_tag is not None and rd.coh.num == self.par_left_pos and self.par_left_tag in rd.tags
            if s == '_RIGHT_':
                return self.par_right_tag is not None and rd.coh.num == self.par_right_pos and self.par_right_tag in rd.tags
            if s == '_ENCL_':
                al = rd.coh.win.all
                i = al.index(rd.coh) + 1
                return i < len(al) and al[i].enclosed > 0
            if s.startswith('_C'):
                n = int(s[2])
                if len(self.stack) > 1:
                    c = self.stack[-2].context
                    return n <= len(c) and rd.coh is c[n - 1]
                return False
        raise ValueError(k)

    def val_match(self, t, x):
        if t.kind == 'lit':
            return t.s == x
        if t.kind == 'icase':
            return t.s.casefold() == x.casefold()
        return bool(t.rx.search(x))

    def match_set(self, s, rd, unif=False):
        k = s.kind
        if k == 'any':
            return True
        if k == 'list':
            for e in s.elems:
                if len(e) == 1 and e[0].ff and self.match_tag(e[0], rd):
                    return False
            for e in s.elems:
                if len(e) == 1 and e[0].ff:
                    continue
                if all(self.match_tag(t, rd, unif) for t in e):
                    if unif:
                        u = self.stack[-1].unif
                        key = (s.name or id(s))
                        ek = tuple(sorted(t.text() for t in e))
                        if key in u:
                            if u[key] != ek:
                                continue
                        else:
                            u[key] = ek
                    return True
            return False
        if k == 'unif':
            if s.uid == '$$':
                return self.match_set(s.members[0], rd, True)
            us = self.stack[-1].usets
            key = s.uid + s.members[0].name
            if not us.get(key):
                ms = [i for i, m in enumerate(s.members[0].members) if self.match_set(m, rd, unif)]
                us[key] = ms
                return bool(ms)
            return any(self.match_set(s.members[0].members[i], rd, unif) for i in us[key])
        # SET
        i, n = 0, len(s.members)
        res = False
        while i < n:
            m = self.match_set(s.members[i], rd, unif)
            ff = False
            while i < n - 1 and s.ops[i] not in ('OR', '|'):
                o = s.ops[i]
                nx = s.members[i + 1]
                if o == '+':
                    m = m and self.match_set(nx, rd, unif)
                elif o == '-':
                    m = m and not self.match_set(nx, rd, unif)
                elif o == '^':
                    if self.match_set(nx, rd, unif):
                        m = False
                        ff = True
                else:
                    raise ValueError(o)
                i += 1
            if m:
                res = True
                break
            if ff:
                break
            i += 1
        if unif:
            # the element that satisfied one of the lists is the one for all of them
            u = self.stack[-1].unif
            keys = [m.name or id(m) for m in s.members]
            hit = [u[x] for x in keys if x in u]
            if hit:
                for x in keys:
                    u[x] = hit[0]
        return res

    # ---- contextual tests -----------------------------------------------
    def get_mark(self):
        return self.stack[-1].mark

    def set_mark(self, c):
        self.stack[-1].mark = c

    def _lists(self, c, t):
        out = [c.readings]
        if t is not None:
            if t.dele:
                out.append(c.deleted)
            if t.dela:
                out.append(c.delayed)
            if t.ign:
                out.append(c.ignored)
        return out

    def _linked(self, c, K):
        """Run the linked test from cohort c; result remembered for the cohort."""
        t = K['test']
        if t is None or t.link is None:
            return True
        if not K['did']:
            K['lres'] = self.test(c.win, c.num, t.link, c if t.link.opass == 'O' else K['origin'], K)
            if not K.get('child_unify'):
                K['did'] = True
        return K['lres'] is not None

    def _helper(self, c, rd, s, K):
        t = K['t']
        cp = self.stack[-1]
        save = (dict(cp.unif), {k: list(v) for k, v in cp.usets.items()}, list(cp.caps))
        ok = self.match_set(s, rd)
        if ok:
            K['matched'] = True
            if t is not None and t.attach and not K['bar']:
                rd.mt = True
        if ok and t is not None and t.nt:
            ok = False
        if ok and not K['bar']:
            ok = self._linked(c, K)
            if t is not None and t.attach:
                rd.mx = ok
                if ok:
                    cp.attach = c
                    cp.attach_rd = None
                    cp.attach_sub = rd
        if not ok:
            del cp.caps[len(save[2]):]
            if K.get('child_unify'):
                cp.unif, cp.usets = save[0], save[1]
        return ok

    def normal(self, c, s, K):
        t = K['t']
        res = False
        if c.wread is not None and not K['bar']:
            res = self._helper(c, c.wread, s, K)
            if res and K['did']:
                return res
        for lst in self._lists(c, t):
            for head in lst:
                rd = head
                if K['test'] is not None and t.sub:
                    rd = self.get_sub(rd, t.sub)
                    if rd is None:
                        continue
                if t is not None and t.act == 'T' and not rd.active:
                    continue
                if t is not None and t.act == 't' and rd.active:
                    continue
                if self._helper(c, rd, s, K):
                    res = True
                    cp = self.stack[-1]
                    if cp.attach is c and cp.attach_sub is rd:
                        cp.attach_rd = head
                if res and (K['test'] is None or K['test'].link is None or K['did']):
                    return res
        if not K['matched'] and t is not None and t.nt:
            res = self._linked(c, K) if not K['bar'] else True
        return res

    def carefully(self, c, s, K):
        t = K['t']
        res = False
        for lst in self._lists(c, t):
            for rd in lst:
                if K['test'] is not None and t.sub:
                    rd = self.get_sub(rd, t.sub)
                    if rd is None:
                        continue
                if t is not None and t.act == 'T' and not rd.active:
                    continue
                if t is not None and t.act == 't' and rd.active:
                    continue
                res = self._helper(c, rd, s, K)
                if not res:
                    break
            if not res:
                break
        if not K['matched'] and t is not None and t.nt:
            res = self._linked(c, K) if not K['bar'] else True
        return res

    def single(self, c, t, origin, P):
        """One position. Returns (cohort, holds, brk, default_brk, barrier)."""
        self.steps += 1
        if self.steps > 2000000:
            raise TooLong()
        ncap = len(self.stack[-1].caps)
        if t.mark:
            self.set_mark(c)
        if t.attach and self.stack[-1].attach is not c:
            for l in self._lists(c, t):
                for r in l:
                    r.mt = r.mx = False
        if t.w:
            self.merge_with = c
        if P is not None:
            P['deep'] = c
        K = {'test': t, 't': t, 'origin': origin, 'did': False, 'matched': False, 'bar': False, 'lres': None, 'deep': None, 'child_unify': has_unif(t.target)}
        K['P'] = P
        if t.careful:
            ok = self.carefully(c, t.target, K)
            if not K['matched'] and t.scan == 1:
                K['did'] = True
                K['lres'] = K['lres'] or (c if t.link else None)
                self.normal(c, t.target, K)
        else:
            ok = self.normal(c, t.target, K)
        if P is not None and K['deep'] is not None:
            P['deep'] = K['deep']
        brk = dflt = bar = False
        out = c
        if origin is not None and (t.off or t.scan) and origin is c and origin.num != 0:
            out = None
            brk = True
        scanning = bool(t.scan) and not (t.dep in ('c', 's'))
        if K['matched'] and scanning and t.scan == 1:
            brk = True
        elif not (t.scan or t.dep in ('pp', 'cc')):
            brk = dflt = True
        broken = brk
        if t.barrier is not None and out is not None:
            if self.normal(c, t.barrier, {'test': None, 't': _no_careful(t), 'origin': None, 'did': False, 'matched': False, 'bar': True, 'lres': None}):
                brk = bar = True
                dflt = False
        if t.cbarrier is not None and out is not None:
            if self.carefully(c, t.cbarrier, {'test': None, 't': t, 'origin': None, 'did': False, 'matched': False, 'bar': True, 'lres': None}):
                brk = bar = True
                dflt = False
        if bar:
            self.seen_bar = True
            self.ev('barrier')
        if K['matched'] and ok:
            brk = True
        if not broken and bar and t.self_ and t.nb:
            brk = bar = False
        if not ok:
            del self.stack[-1].caps[ncap:]
        return out, ok, brk, dflt, bar

    def test(self, win, pos, t, origin=None, K=None):
        """Returns the cohort the test ended on, or None when it does not hold. K['deep'] receives the last cohort of the link chain."""
        if t.jump:
            if t.jump in ('x', 'jM'):
                j = self.get_mark()
            elif t.jump == 'jA':
                j = self.stack[-1].attach
            elif t.jump == 'jT':
                j = None
                for c in self.stack[::-1]:
                    if c.is_with:
                        j = c.cohort
            else:
                n = int(t.jump[2])
                cx = self.stack[-2].context if len(self.stack) > 1 else []
                j = cx[n - 1] if n <= len(cx) else None
            if j is None:
                return self._finish(win, t, None, False)
            win, pos = j.win, j.num
        P = {'deep': None}
        sw, p = win, pos + t.off
        c = None
        edge = False
        if t.abs and t.span in ('<', '>', 'W') and t.span != 'W':
            if t.span == '<' and sw.prev:
                sw = sw.prev
            elif t.span == '>' and sw.next:
                sw = sw.next
            else:
                edge = True
        if not edge:
            if t.abs:
                p = len(sw.cohorts) + t.off if t.off < 0 else t.off
            if p >= len(sw.cohorts):
                if t.span in ('>', 'W') and sw.next:
                    sw = sw.next
                    p = 0
            elif p < 0:
                if t.span in ('<', 'W') and sw.prev:
                    sw = sw.prev
                    p = len(sw.cohorts) - 1
            if 0 <= p < len(sw.cohorts):
                c = sw.cohorts[p]
        if c is None:
            return self._finish(sw, t, None, False)
        if t.opass == 'o':
            origin = sw.cohorts[0]
        holds = True
        cohort = c
        spanl = t.span in ('<', 'W') or self.o.always_span
        spanr = t.span in ('>', 'W') or self.o.always_span
        it = None
        if t.bag:
            m = self.bag_match(sw, t)
            if t.nt:
                m = not m
            if m:
                if t.link is not None:
                    cohort = self.test(win, pos, t.link, origin, P)
                    holds = True
            else:
                holds = False
        elif t.dep in ('c', 's'):
            nc = self.dep_test(sw, c, t, origin, P, None)
            if nc is not None:
                cohort, holds = nc, True
                sw = nc.win
            else:
                holds = False
            if t.none:
                holds = not holds
        elif t.par:
            holds = False
            if self.par_left_pos <= c.num <= self.par_right_pos:
                x = sw.cohorts[self.par_left_pos if t.par == 'L' else self.par_right_pos]
                _, ok, *_ = self.single(x, t, origin, P)
                if ok:
                    cohort, holds = x, True
        elif t.rel is not None:
            nc = self.rel_test(sw, c, t, origin, P)
            if nc is not None:
                cohort, holds = nc, True
            else:
                holds = False
            if t.none:
                holds = not holds
        elif not t.dep and t.off == 0 and t.scan:
            cohort, holds = self.both_ways(sw, p, c, t, origin, P, spanl, spanr)
        else:
            if t.dep:
                it = self.dep_iter(c, t)
            elif t.off < 0:
                it = self.left_iter(c, spanl)
            elif t.off > 0:
                it = self.right_iter(c, spanr)
            else:
                it = iter((c,))
            nc = None
            brk = False
            seen = 0
            if t.self_ and (not t.lr or t.dep == 'p'):
                seen += 1
                nc, holds, brk, dflt, bar = self.single(win.cohorts[pos] if not t.jump else win.cohorts[pos], t, origin, P)
                if not holds and dflt:
                    brk = False
            if not brk:
                cur = c
                for x in it:
                    seen += 1
                    if t.lr == 'l' and before(cur, x):
                        nc, holds = None, False
                        break
                    if t.lr == 'r' and not before(cur, x):
                        nc, holds = None, False
                        break
                    nc, holds, brk, dflt, bar = self.single(x, t, origin, P)
                    if t.all and not holds:
                        nc = None
                        break
                    if t.none and holds:
                        nc = None
                        break
                    if brk:
                        break
                    cur = x
            if seen == 0:
                holds = False
            if not holds and t.none:
                holds = True
                nc = c
            cohort = nc
        r = self._finish(sw, t, cohort, holds)
        if K is not None and P['deep'] is not None:
            K['deep'] = P['deep']
        return r

    def _finish(self, sw, t, cohort, holds):
        if cohort is None:
            holds = False
            if t.nt and t.link is None:
                holds = True
        if t.neg:
            holds = not holds
        if not holds:
            return None
        return cohort if cohort is not None else sw.cohorts[0]

    def both_ways(self, sw, p, c, t, origin, P, spanl, spanr):
        cohort, holds = c, True
        if t.self_:
            cohort, holds, brk, dflt, bar = self.single(c, t, origin, P)
            if not holds and dflt:
                brk = False
            if brk and holds:
                return cohort, holds
        lw, li = sw, p - 1
        rw, ri = sw, p + 1
        while lw is not None or rw is not None:
            if lw is not None:
                if li < 0:
                    # only reachable at the >>> cohort
                    cohort, holds, brk = None, False, True
                else:
                    cohort, holds, brk, _, _ = self.single(lw.cohorts[li], t, origin, P)
                if brk and holds:
                    return cohort, holds
                if brk:
                    lw = None
                    if t.nt:
                        rw = None
                elif li == 0:
                    lw = lw.prev if spanl else None
                    if lw is not None:
                        li = len(lw.cohorts) - 1
                else:
                    li -= 1
            if rw is not None:
                if ri >= len(rw.cohorts):
                    cohort, holds, brk = None, False, True
                else:
                    cohort, holds, brk, _, _ = self.single(rw.cohorts[ri], t, origin, P)
                if brk and holds:
                    return cohort, holds
                if brk:
                    rw = None
                    if t.nt:
                        lw = None
                elif ri == len(rw.cohorts) - 1:
                    rw = rw.next if spanr else None
                    ri = 0
                else:
                    ri += 1
        return cohort, holds

    def left_iter(self, c, span):
        while True:
            yield c
            w = c.win
            if c.num > 0:
                c = w.cohorts[c.num - 1]
            elif span and w.prev and w.prev.cohorts:
                c = w.prev.cohorts[-1]
            else:
                return

    def right_iter(self, c, span):
        while True:
            yield c
            w = c.win
            if c.num + 1 < len(w.cohorts):
                c = w.cohorts[c.num + 1]
            elif span and w.next and w.next.cohorts:
                c = w.next.cohorts[0]
            else:
                return

    def bag_match(self, sw, t):
        def tags(w):
            rd = Rd(w.cohorts[0])
            rd.tags = w.bag
            return rd
        if self.match_set(t.target, tags(sw)):
            return True
        if t.span in ('<', 'W'):
            w = sw.prev
            while w:
                if self.match_set(t.target, tags(w)):
                    return True
                w = w.prev
        if t.span in ('>', 'W'):
            w = sw.next
            while w:
                if self.match_set(t.target, tags(w)):
                    return True
                w = w.next
        return False

    # ---- dependency ------------------------------------------------------
    def by_gid(self, g):
        return self.cmap.get(g)

    def kids(self, c):
        return sorted(set(c.children))

    def span_ok(self, a, b, t):
        """b reachable from a."""
        if a.win is b.win or self.o.always_span:
            return True
        if b.win.number < a.win.number:
            return t.span in ('<', 'W')
        return t.span in ('>', 'W')

    def dep_iter(self, c, t):
        if t.dep == 'p':
            seen = set()
            cur = c
            out = []
            while True:
                if cur.parent == NOPARENT:
                    break
                n = self.by_gid(cur.parent) if cur.parent else cur.win.cohorts[0]
                if n is None or n.removed or n in seen:
                    break
                seen.add(cur)
                if not self.span_ok(cur, n, t):
                    break
                cur = n
                out.append(n)
            return iter(out)
        if t.dep == 'pp':
            out = []
            cur = c
            while cur.parent != NOPARENT:
                n = self.by_gid(cur.parent) if cur.parent else cur.win.cohorts[0]
                if n is None or n in out:
                    break
                out.append(n)
                cur = n
            return iter(self._lr(out, c, t))
        out = []
        todo = [self.by_gid(k) for k in self.kids(c)]
        while todo:
            x = todo.pop()
            if x is None or x in out:
                continue
            out.append(x)
            todo += [self.by_gid(k) for k in self.kids(x)]
        return iter(self._lr(out, c, t))

    def _lr(self, out, c, t):
        out = sorted(out, key=lambda x: (x.win.number, x.num))
        if t.lr == 'l':
            out = [x for x in out if before(x, c)]
        elif t.lr == 'r':
            out = [x for x in out if not before(x, c)]
        if t.self_ and c not in out:
            out = sorted(out + [c], key=lambda x: (x.win.number, x.num))
        if t.lr == 'rr':
            out = out[::-1]
        return out

    def dep_test(self, sw, cur, t, origin, P, me):
        if me is not None:
            if me is cur:
                return None
        else:
            me = cur
        if t.scan:
            if (id(t), cur.gid) in self.seen_deep:
                return None
            self.seen_deep.add((id(t), cur.gid))
        if t.self_ and not t.lr:
            _, ok, _, _, bar = self.single(cur, t, origin, P)
            if ok:
                return cur
            if bar:
                return None
        if t.dep == 'c':
            ids = self.kids(cur)
        elif cur.parent == 0:
            ids = self.kids(cur.win.cohorts[0])
        else:
            p = self.by_gid(cur.parent)
            if p is None or not p.children:
                return None
            ids = self.kids(p)
        cs = [self.by_gid(i) for i in ids]
        cs = [x for x in cs if x is not None]
        if t.lr:
            cs.sort(key=lambda x: x.gid)
            if t.lr == 'l':
                cs = [x for x in cs if before(x, cur)]
            elif t.lr == 'r':
                cs = [x for x in cs if before(cur, x)]
            if t.self_ and cur not in cs:
                cs = sorted(cs + [cur], key=lambda x: x.gid)
            if t.lr == 'rr':
                cs = cs[::-1]
        rv = None
        for x in cs:
            if x is cur and not t.self_:
                continue
            if x.removed:
                continue
            ok = bar = False
            if self.span_ok(cur, x, t):
                _, ok, _, _, bar = self.single(x, t, origin, P)
            if t.all:
                if not ok:
                    rv = None
                    break
                rv = x
            elif ok:
                rv = x
                break
            elif bar:
                continue
            elif t.scan:
                y = self.dep_test(x.win, x, t, origin, P, me)
                if y is not None:
                    rv = y
                    break
        return rv

    def rel_test(self, sw, cur, t, origin, P):
        if not cur.rels:
            return None
        out = []
        for k, v in cur.rels.items():
            if isinstance(t.rel, str):
                if t.rel != '*' and t.rel != k:
                    continue
            elif not self.val_match(t.rel, k):
                continue
            for g in v:
                x = self.by_gid(g)
                if x is not None and x not in out:
                    out.append(x)
        out.sort(key=lambda x: (x.win.number, x.num))
        if t.lr == 'l':
            out = [x for x in out if before(x, cur)]
        if t.lr == 'r':
            out = [x for x in out if not before(x, cur)]
        if t.self_ and cur not in out:
            out = sorted(out + [cur], key=lambda x: (x.win.number, x.num))
        if t.lr == 'll':
            out = out[:1]
        if t.lr == 'rr':
            out = out[-1:]
        rv = None
        for x in out:
            _, ok, *_ = self.single(x, t, origin, P)
            if t.all:
                if not ok:
                    rv = None
                    break
                rv = x
            elif ok:
                rv = x
                break
        return rv


def varstring(s, caps):
    """Fill in what was captured, then change case from the last marker to the first."""
    out = []
    i = 0
    while i < len(s):
        if s[i] == '$' and i + 1 < len(s) and s[i + 1] in '123456789' and int(s[i + 1]) <= len(caps):
            out += list(caps[int(s[i + 1]) - 1])
            i += 2
        elif s[i] == '%' and i + 1 < len(s) and s[i + 1] in 'uUlL':
            out.append(('case', s[i + 1]))
            i += 2
        else:
            out.append(s[i])
            i += 1
    for k in range(len(out) - 1, -1, -1):
        if isinstance(out[k], tuple):
            m = out.pop(k)[1]
            end = len(out) if m in 'UL' else min(k + 1, len(out))
            for j in range(k, end):
                out[j] = out[j].upper() if m in 'uU' else out[j].lower()
    return ''.join(out)


def before(a, b):
    return (a.win.number, a.num) < (b.win.number, b.num)


class _NC:
    pass


def _no_careful(t):
    return t


def has_unif(s):
    if s.kind == 'unif':
        return True
    if s.kind == 'set':
        return any(has_unif(m) for m in s.members)
    return False
