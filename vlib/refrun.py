"""Reference interpreter, second half: streams, windows, sections, rule application and printing."""
import re
from .gr import Tag, Set
from .ref import Engine, Rd, Coh, Win, Ctx, Opts, TooLong, NOPARENT, is_base, is_wf, before, has_unif, varstring

WF_RX = re.compile(r'^("<.*?>")(?=\s|$)')
DEP_RX = re.compile(r'^#(\d+)->(\d+)$')
REL_RX = re.compile(r'^R:([^:]*):(\d+)$')
ID_RX = re.compile(r'^ID:(\d+)$')
PART_RX = re.compile(r'^([0-9cd]+)->([0-9pm]+)$')


# the rule types that make a section run again when they change something
ITERATES = {'SELECT', 'REMOVE', 'IFF', 'DELIMIT', 'REMCOHORT', 'MOVE', 'SWITCH'}


def split_tags(s):
    """Split a reading line into tags: blanks separate, a quoted tag may hold blanks."""
    out = []
    i, n = 0, len(s)
    while i < n:
        while i < n and s[i] == ' ':
            i += 1
        if i >= n:
            break
        j = i
        if s[i] == '"':
            j = s.find('"', i + 1)
            j = n if j < 0 else j
        while j < n and s[j] != ' ':
            j += 1
        out.append(s[i:j])
        i = j
    return out


class Runner(Engine):
    """Runs a grammar over a stream and gives the output as a list of items:
    ('cmd', line) ('text', text) ('coh', wf, static, [(number, [line, ...]), ...])"""

    def __init__(self, grammar, opts):
        Engine.__init__(self, grammar, opts)
        self.out = []
        self.wins = []          # every window in stream order that is not yet printed
        self.has_dep = opts.deps
        self.has_rel = opts.rel
        self.vars = {}
        self.changed = 0
        self.applied = {}       # rule number -> times it did something
        self.relmap = {}
        self.merge_with = None
        self.nwin = 0
        self.spanned = False
        self.roots = set()

    # ---- stream ----------------------------------------------------------
    def run(self, text):
        o = self.o
        g = self.g
        cw = cc = lw = lc = None
        indents = []
        maps = {}
        pend_set, pend_rem, pend_out = {}, set(), []
        queue = []              # windows not yet run
        self.prevs = []         # windows run, not printed
        self.queue = queue
        soft_done = False
        ignoring = False

        def new_window():
            w = Win()
            self.nwin += 1
            w.number = self.nwin
            c = Coh('>>>')
            c.gid = self.gid
            self.roots.add(c.gid)
            self.gid += 1
            r = Rd(c)
            r.tags = ['>>>']
            r.base = '>>>'
            c.append(r)
            self.put(w, c)
            queue.append(w)
            self.relink()
            return w

        def adopt(w):
            w.vars_set.update(pend_set)
            w.vars_rem |= pend_rem
            w.vars_out += [x for x in pend_out if x not in w.vars_out]
            pend_set.clear()
            pend_rem.clear()
            del pend_out[:]

        def finish(c):
            rs = list(c.readings)
            for r in rs:
                if id(r) in maps:
                    self.split_mappings(maps[id(r)], c, r, True)
            maps.clear()
            c.readings.sort(key=lambda r: r.number)

        def endtag(c):
            for r in c.readings:
                self.add_tag(r, '<<<')

        def magic(c):
            if not c.readings:
                self.empty_cohort(c)

        def close(c):
            endtag(c)
            finish(c)
            self.put(cw, c)

        lines = text.split('\n')
        if lines and lines[-1] == '':
            lines.pop()
        for line in lines:
            line = line.rstrip('\r')
            cl = re.sub(r'[ \t]+', ' ', line).rstrip()
            m = WF_RX.match(cl) if not ignoring else None
            if m:
                if cc is not None:
                    magic(cc)
                if cw is not None and len(cw.cohorts) >= o.soft_limit and g.soft and not soft_done:
                    soft_done = True
                    for c in reversed(cw.cohorts):
                        if self.delims(g.soft, c):
                            soft_done = False
                            lw = cw = self.delimit_at(cw, c)
                            if cc is not None:
                                cc.win = cw
                            self.ev('softback')
                            break
                if cc is not None and len(cw.cohorts) >= o.soft_limit and g.soft and self.delims(g.soft, cc):
                    close(cc)
                    lw = cw
                    cw = cc = None
                    soft_done = False
                    self.ev('soft')
                if cc is not None and (len(cw.cohorts) >= o.hard_limit or (not o.dep_delimit and g.delims and self.delims(g.delims, cc))):
                    if len(cw.cohorts) >= o.hard_limit:
                        self.ev('hard')
                    close(cc)
                    lw = cw
                    cw = cc = None
                    soft_done = False
                    self.ev('delim')
                if cw is None:
                    cw = new_window()
                    lw = cw
                    cc = None
                    soft_done = False
                if cc is not None:
                    finish(cc)
                    self.put(cw, cc)
                if len(queue) > o.num_windows + 1:
                    self.run_next()
                if len(cw.all) == 1:
                    adopt(cw)
                wf = m.group(1)
                cc = Coh(wf)
                cc.gid = self.gid
                self.gid += 1
                cc.win = cw
                lc = cc
                indents = []
                rest = split_tags(cl[m.end():])
                cc.static = rest
                if rest or len(cl) > m.end():
                    cc.wread = Rd(cc)
                    cc.wread.tags = [wf]
                    for t in rest:
                        self.add_tag(cc.wread, t)
                self.cmap[cc.gid] = cc
                continue
            if not ignoring and cc is not None and line[:1] in (' ', '\t') and line.lstrip(' \t')[:1] == '"':
                ind = len(line) - len(line.lstrip(' \t'))
                while indents and ind <= indents[-1][0]:
                    indents.pop()
                if indents and ind > indents[-1][0] and indents[-1][1].sub is not None:
                    continue
                r = Rd(cc)
                self.add_tag(r, cc.wf)
                ms = []
                for t in split_tags(cl):
                    d = DEP_RX.match(t)
                    if d:
                        self.has_dep = True
                        cc.depself = int(d.group(1))
                        cc.parent_in = int(d.group(2))
                        if cc.parent_in == cc.depself:
                            cc.parent_in = None
                    if o.rel or not d:
                        q = REL_RX.match(t)
                        if q:
                            self.has_rel = True
                            cc.related = True
                            cc.rels_in.setdefault(q.group(1), set()).add(int(q.group(2)))
                        q = ID_RX.match(t)
                        if q:
                            self.has_rel = True
                            cc.related = True
                            self.relmap[int(q.group(1))] = cc.gid
                    if self.is_map(t):
                        ms.append(t)
                    else:
                        self.add_tag(r, t)
                if not indents:
                    if ms:
                        maps[id(r)] = ms
                        cc.keep.append(r)
                    cc.append(r)
                else:
                    p = indents[-1][1]
                    p.sub = r
                    if ms:
                        del ms[1:]
                        r.number = 1
                        self.split_mappings(ms, cc, r, True)
                        r.number = 0
                indents.append((ind, r))
                if o.dep_delimit and self.dep_high and (cc.depself <= self.dep_high or cc.depself - self.dep_high > o.dep_delimit):
                    if len(cw.cohorts) > 1:
                        self.ev('depdelim')
                        endtag(cw.cohorts[-1])
                        cw = new_window()
                        adopt(cw)
                        lw = cw
                        cc.win = cw
                        soft_done = False
                    self.dep_high = 0
                continue
            # text or command
            if not cl.strip():
                cl = ''
            cmd = False
            if cl == '<STREAMCMD:FLUSH>':
                self.ev('flush')
                back = queue[-1] if queue else (self.current if self.current is not None and not self.current.printed else (self.prevs[-1] if self.prevs else None))
                if back is not None:
                    back.flush = True
                if cc is not None and cw is not None:
                    finish(cc)
                    self.put(cw, cc)
                    magic(cc)
                    endtag(cc)
                cw = cc = lw = lc = None
                self.drain()
                if back is None:
                    self.out.append(('cmd', cl))
                self.vars = {}
                continue
            if cl == '<STREAMCMD:IGNORE>':
                ignoring = True
                self.out.append(('cmd', cl))
                continue
            if cl == '<STREAMCMD:RESUME>':
                ignoring = False
                self.out.append(('cmd', cl))
                continue
            if cl == '<STREAMCMD:EXIT>':
                self.out.append(('cmd', cl))
                return self.out
            if cl.startswith('<STREAMCMD:SETVAR:'):
                for part in cl[len('<STREAMCMD:SETVAR:'):-1].split(','):
                    k, _, v = part.partition('=')
                    v = v if '=' in part else '*'
                    pend_set[k] = v
                    pend_rem.discard(k)
                    if k not in pend_out:
                        pend_out.append(k)
                continue
            if cl.startswith('<STREAMCMD:REMVAR:'):
                for k in cl[len('<STREAMCMD:REMVAR:'):-1].split(','):
                    pend_set.pop(k, None)
                    pend_rem.add(k)
                    if k not in pend_out:
                        pend_out.append(k)
                continue
            txt = line + '\n'
            if o.text_delims and not ignoring and lw is not None and lc is not None and cc is not None and any(re.search(d, line) for d in o.text_delims):
                self.ev('textdelim')
                lw.post += txt
                magic(cc)
                close(cc)
                lw = cw
                cw = cc = lc = None
                soft_done = False
            elif lc is not None:
                lc.text += txt
            elif lw is not None:
                if lw.post:
                    lw.post += txt
                else:
                    lw.text += txt
            else:
                self.out.append(('text', txt))
        if cc is not None and cw is not None:
            finish(cc)
            self.put(cw, cc)
            magic(cc)
            endtag(cc)
        self.drain()
        for k in pend_out:
            self.out.append(('cmd', self.varcmd(k, pend_set)))
        return self.out

    def delims(self, ds, c):
        for d in ds:
            for r in c.readings + ([c.wread] if c.wread else []):
                if (self.match_tag(d, r) if isinstance(d, Tag) else d in r.tags):
                    return True
        return False

    def varcmd(self, k, vs):
        if k in vs:
            return '<STREAMCMD:SETVAR:%s>' % (k if vs[k] == '*' else k + '=' + vs[k])
        return '<STREAMCMD:REMVAR:%s>' % k

    def put(self, w, c):
        c.win = w
        c.num = len(w.cohorts)
        w.cohorts.append(c)
        w.all.append(c)
        self.cmap[c.gid] = c
        if c.depself:
            self.dep_high = c.depself

    def relink(self):
        seq = self.prevs + ([self.current] if self.current is not None and not self.current.printed else []) + self.queue
        seen = []
        for w in seq:
            if w not in seen:
                seen.append(w)
        for i, w in enumerate(seen):
            w.prev = seen[i - 1] if i else None
            w.next = seen[i + 1] if i + 1 < len(seen) else None

    def empty_cohort(self, c):
        r = Rd(c)
        r.tags = [c.wf]
        r.base = c.wf if not self.o.magic else '"' + c.wf[2:-2] + '"'
        r.noprint = True
        c.append(r)

    def run_next(self):
        self.retire()
        if self.queue:
            self.current = self.queue.pop(0)
            self.relink()
            self.run_window(self.current)

    def retire(self):
        c = self.current
        if c is not None and not c.printed and c not in self.prevs:
            self.prevs.append(c)
            # what other windows and the output see of its variables is how it left them
            c.vars_set = dict(self.vars)
            c.vars_rem = set()

    def drain(self):
        while self.queue:
            self.run_next()
        self.retire()
        for w in self.prevs:
            self.print_window(w)
        del self.prevs[:]
        self.current = None

    # ---- windows ----------------------------------------------------------
    def run_window(self, w):
        self.did_final = False
        self.vars.update(w.vars_set)
        for k in w.vars_rem:
            self.vars.pop(k, None)
        self.vars['_MPREFIX'] = self.o.prefix
        self.reflow_deps()
        self.reflow_rels()
        if self.o.parens:
            self.wrap(w)
        self.par_left_pos = self.par_right_pos = 0
        self.par_left_tag = self.par_right_tag = None
        npass = 0
        while True:
            while len(self.prevs) > self.o.num_windows:
                self.print_window(self.prevs.pop(0))
            self.relink()
            w.hit_external = set()
            npass += 1
            if npass > 900:
                raise TooLong()
            if self.run_single_window(w):
                continue
            if w.has_encl and self.unwrap(w):
                continue
            break
        self.unignore_cohorts(w)

    def wrap(self, w):
        while True:
            done = True
            for i in range(len(w.cohorts) - 1, -1, -1):
                c = w.cohorts[i]
                want = dict(self.o.parens).get(c.pl)
                if c.pl is None or want is None:
                    continue
                j = next((k for k in range(i, len(w.cohorts)) if w.cohorts[k].pr == want), None)
                if j is None:
                    continue
                a, b = w.all.index(c), w.all.index(w.cohorts[j])
                for x in w.all[a:b + 1]:
                    x.enclosed += 1
                del w.cohorts[i:j + 1]
                self.renumber(w)
                w.has_encl = True
                self.ev('wrap')
                done = False
                break
            if done:
                return

    def unwrap(self, w):
        i = next((k for k, c in enumerate(w.all) if c.enclosed == 1), None)
        if i is None:
            if self.did_final:
                return False
            self.par_left_pos = self.par_right_pos = 0
            self.par_left_tag = self.par_right_tag = None
            self.did_final = True
            return True
        ra = i
        out = []
        while ra < len(w.all) and (w.all[ra].enclosed or w.all[ra].removed or w.all[ra].ignoredc):
            if w.all[ra].enclosed:
                w.all[ra].enclosed -= 1
                if w.all[ra].enclosed == 0:
                    out.append(w.all[ra])
                    if w.all[ra].pr == dict(self.o.parens)[w.all[i].pl]:
                        break
            ra += 1
        left = next(c for c in reversed(w.all[:i]) if not (c.enclosed or c.removed or c.ignoredc))
        at = left.num + 1
        w.cohorts[at:at] = out
        for c in out:
            c.win = w
        self.renumber(w)
        self.par_left_tag, self.par_right_tag = out[0].pl, out[-1].pr
        self.par_left_pos, self.par_right_pos = at, at + len(out) - 1
        self.ev('unwrap')
        return True

    def renumber(self, w):
        for i, c in enumerate(w.cohorts):
            c.num = i

    def unignore_cohorts(self, w):
        for i in range(len(w.all) - 1, -1, -1):
            c = w.all[i]
            if c.ignoredc:
                for j in range(i - 1, -1, -1):
                    x = w.all[j]
                    if not (x.removed or x.enclosed or x.ignoredc):
                        w.cohorts.insert(x.num + 1, c)
                        c.ignoredc = False
                        self.cmap[c.gid] = c
                        self.renumber(w)
                        break

    def run_single_window(self, w):
        """True when the window was cut and must be run again."""
        g, o = self.g, self.o
        if g.before and not o.no_before:
            if self.run_rules(w, g.before) == 'delim':
                return True
        if any(g.sections) and not o.no_sections:
            k = 0
            counts = {}
            passes = 0
            order = self.sections()
            while k < len(order):
                if o.max_runs and counts.get(k, 0) >= o.max_runs:
                    k += 1
                    passes += 1
                    continue
                r = self.run_rules(w, order[k])
                counts[k] = counts.get(k, 0) + 1
                if r == 'delim':
                    return True
                if not r:
                    k += 1
                    passes = 0
                passes += 1
                if passes > o.pass_limit:
                    raise TooLong()
            if len(counts) and max(counts.values()) > 2:
                self.ev('iterated')
        if g.after and not o.no_after:
            if self.run_rules(w, g.after) == 'delim':
                return True
        return False

    def sections(self):
        out = []
        acc = []
        if self.o.sections:
            for n in self.o.sections:
                acc = acc + self.g.sections[n - 1]
                out.append(sorted(acc, key=lambda r: r.num))
            return out
        for s in self.g.sections:
            acc = acc + s
            out.append(acc)
        return out

    def run_rules(self, w, rules):
        did = False
        for r in rules:
            if self.o.rules is not None and r.num not in self.o.rules:
                continue
            if self.o.no_mappings and r.type in ('MAP', 'ADD', 'REPLACE'):
                continue
            if self.o.no_corrections and r.type in ('SUBSTITUTE', 'APPEND'):
                continue
            if w.has_encl:
                if r.has('ENCL_FINAL') and not self.did_final:
                    continue
                if self.did_final and not r.has('ENCL_FINAL'):
                    continue
            n = 0
            while True:
                n += 1
                if n > 200:
                    raise TooLong()
                try:
                    ch = self.run_rule(w, r)
                except Delimited:
                    return 'delim'
                if ch:
                    self.applied[r.num] = self.applied.get(r.num, 0) + 1
                    if (r.type in ITERATES or r.has('ITERATE')) and not r.has('NOITERATE') and self.o.max_runs != 1:
                        did = True
                if not (ch and r.has('REPEAT')):
                    break
        return did

    # ---- one rule over one window -----------------------------------------
    def run_rule(self, w, rule, only=None):
        """Try the rule on every cohort in order. Returns whether anything changed."""
        changed = False
        todo = list(w.cohorts[1:]) if only is None else list(only)
        pos = 0
        while pos < len(todo):
            c = todo[pos]
            pos += 1
            self.reset = False
            r = self.try_cohort(w, rule, c)
            if r == 'stop':
                return True
            changed = changed or r
            self.steps += 1
            if self.steps > 2000000:
                raise TooLong()
            if self.reset and only is None:
                # go on after the cohort just treated, over the window as it is now
                todo = w.cohorts[1:]
                pos = c.num - 1 if (c.removed or c.ignoredc) else c.num
        return changed

    def wf_ok(self, rule, c):
        if rule.wf is None:
            return True
        t = rule.wf
        if t.kind == 'lit':
            return t.s == c.wf
        if t.kind == 'icase':
            return t.s.casefold() == c.wf.casefold()
        if t.kind == 'rx':
            return bool(t.rx.search(c.wf))
        raise ValueError(t.kind)

    def try_cohort(self, w, rule, c):
        ty = rule.type
        o = self.o
        unsafe = (o.unsafe and not rule.has('SAFE')) or rule.has('UNSAFE')
        if c.num == 0 or c.removed or c.ignoredc or c.enclosed or c.win is not w or not c.readings or not self.wf_ok(rule, c):
            return False
        if ty == 'RESTORE':
            src = c.delayed if rule.has('DELAYED') else c.ignored if rule.has('IGNORED') else c.deleted
            if not src:
                return False
        if len(c.readings) == 1:
            if ty == 'SELECT':
                return False
            if ty in ('REMOVE', 'IFF'):
                if c.readings[0].noprint or not unsafe:
                    return False

        elif ty == 'UNMAP' and not rule.has('UNSAFE'):
            return False
        if ty == 'DELIMIT' and c.num == len(w.cohorts) - 1:
            return False
        inpar = self.par_left_pos and self.par_left_pos <= c.num <= self.par_right_pos
        if rule.has('ENCL_INNER'):
            if not inpar:
                return False
        elif rule.has('ENCL_OUTER'):
            if inpar:
                return False
        if ty == 'SETPARENT' and rule.has('SAFE') and c.parent != NOPARENT:
            return False
        if rule.has('NOPARENT') and c.parent != NOPARENT:
            return False
        if ty in ('REMPARENT', 'SWITCHPARENT') and c.parent == NOPARENT:
            return False

        # a first test that starts from the mark implies REMEMBERX
        remember = not rule.has('RESETX') and (rule.has('REMEMBERX') or any(t.jump in ('x', 'jM') for t in rule.tests + rule.dep_tests))
        type = 'REMOVE' if ty == 'IFF' else ty
        active = 0
        nprot = 0
        niff = 0
        ctxs = []
        marks = {}
        pm = self.stack[-1].mark if self.stack else None
        for head in list(c.readings):
            rd = self.get_sub(head, rule.sub)
            if rd is None:
                continue
            x = Ctx()
            x.cohort, x.reading, x.sub = c, head, rd
            x.is_with = ty == 'WITH'
            marks[id(rd)] = [False, False]
            if rd.mapped and (ty in ('MAP', 'ADD', 'REPLACE') or rule.has('NOMAPPED')):
                continue
            if rd.noprint and not o.magic:
                continue
            if rd.prot and ty != 'UNPROTECT':
                self.ev('protected')
                if ty in ('PROTECT', 'ADD', 'MAP', 'REPLACE', 'SELECT', 'REMOVE', 'IFF', 'SUBSTITUTE', 'UNMAP'):
                    active += 1
                    nprot += 1
                if type == 'SELECT':
                    ctxs.append((x, True, True))
                niff += 1
                continue
            x.mark = pm or c
            self.stack.append(x)
            self.same_basic = rd.plain()
            self.rule_target = c
            for q in head.chain():
                q.active = True
            good = False
            tgt = self.match_set(rule.target, rd)
            if tgt:
                good = True
                self.seen_deep = set()
                for t in rule.tests:
                    if not remember:
                        x.mark = c
                    self.merge_with = None
                    self.seen_deep = set()
                    K = {'deep': None}
                    origin = c if (t.opass == 'O' or (o.no_pass_origin and t.opass != 'o')) else None
                    res = self.test(w, c.num, t, origin, K if ty == 'WITH' else None)
                    x.context.append(self.merge_with or (K['deep'] if ty == 'WITH' else None))
                    if res is None:
                        good = False
                        break
                if good:
                    if ty == 'IFF' and type != 'SELECT':
                        type = 'SELECT'
                        for y, h in [(self.get_sub(h, rule.sub), h) for h in c.readings[:c.readings.index(head)]]:
                            if y is not None and y.prot:
                                yx = x.copy()
                                yx.reading, yx.sub = h, y
                                ctxs.append((yx, True, True))
                    active += 1
                niff += 1
            for q in head.chain():
                q.active = False
            self.stack.pop()
            ctxs.append((x, tgt, good))
        if ty == 'SELECT' and nprot and active == nprot:
            # what SELECT does in a cohort where it matches none but there are protected readings is not specified
            raise TooLong()
        if active == 0 and (niff == 0 or ty != 'IFF'):
            return False
        if active == len(c.readings):
            if type == 'SELECT':
                return False
            if type == 'REMOVE' and not unsafe:
                return False
        self.ev('fired')
        return self.apply(w, rule, c, type, ctxs, unsafe)

    # ---- effects ------------------------------------------------------------
    def tags_of(self, tags, x):
        if isinstance(tags, Set):
            return self.bound(tags, x)
        return [self.expand(t, x) if isinstance(t, Tag) else t for t in tags]

    def expand(self, t, x):
        if t.kind == 'vstr':
            return varstring(t.s, x.caps)
        return t.s

    def bound(self, s, x):
        """The tags a unified set stands for."""
        out = []
        if s.uid == '$$':
            m = s.members[0]
            for l in [m] if m.kind == 'list' else m.members:
                hit = x.unif.get(l.name or id(l))
                out += [t.s for e in l.elems if tuple(sorted(t.text() for t in e)) == hit for t in e if t.s not in out]
        else:
            m = s.members[0]
            for i in x.usets.get(s.uid + m.name, []):
                out += [t.s for e in m.members[i].elems for t in e]
        return out

    def apply(self, w, rule, c, type, ctxs, unsafe):
        ty = rule.type
        before = (len(c.readings), len(c.deleted), len(c.delayed), len(c.ignored))
        changed = False
        order = {id(r): i for i, r in enumerate(c.readings)}
        if ty == 'IFF':
            ctxs.sort(key=lambda t: order.get(id(t[0].reading), 0))
        selected, removed = [], []
        for x, tgt, good in ctxs:
            if not tgt or (not good and ty != 'IFF'):
                continue
            self.stack.append(x)
            try:
                if ty == 'SELECT' or (ty == 'IFF' and good):
                    selected.append(x.reading)
                elif ty in ('REMOVE', 'IFF'):
                    if ty == 'REMOVE' and rule.has('UNMAPLAST') and len(removed) == len(c.readings) - 1:
                        changed |= self.unmap(x.sub)
                    else:
                        removed.append(x.reading)
                else:
                    r = self.edit(w, rule, c, x)
                    if r == 'break':
                        changed = True
                        break
                    if r == 'done':
                        break
                    if r == 'stop':
                        return 'stop'
                    if r == 'stopmove':
                        # what was moved is not tried again
                        changed = True
                        break
                    changed |= bool(r)
            finally:
                self.stack.pop()
        if ty == 'SELECT' or (ty == 'IFF' and selected):
            if selected and len(selected) < len(c.readings):
                drop = [r for r in c.readings if r not in selected]
                c.readings = selected
                self.bin(rule, c).extend(drop)
                changed = True
        elif ty in ('REMOVE', 'IFF'):
            if removed and (len(removed) < len(c.readings) or unsafe):
                self.bin(rule, c).extend(removed)
                for r in reversed(removed):
                    i = c.readings.index(r)
                    c.readings[i], c.readings[-1] = c.readings[-1], c.readings[i]
                    c.readings.pop()
                changed = True
            if not c.readings:
                self.ev('emptied')
                self.empty_cohort(c)
        elif ty in ('SETVARIABLE', 'REMVARIABLE'):
            if ty == 'SETVARIABLE':
                gone = [rule.tags[0].s]
                self.vars[gone[0]] = rule.tags2[0].s
            else:
                gone = []
                for t in rule.tags:
                    hit = [k for k in self.vars if k != '_MPREFIX' and self.val_match(t, k)]
                    if len(hit) > 1:
                        raise TooLong()     # which one goes is not specified
                    for k in hit:
                        del self.vars[k]
                        gone.append(k)
            for k in gone:
                if rule.has('OUTPUT') and k not in w.vars_out:
                    w.vars_out.append(k)
        elif ty == 'DELIMIT':
            if len(w.cohorts) > c.num + 1:
                self.delimit_at(w, c)
                self.ev('delimit')
                raise Delimited()
        elif ty == 'REMCOHORT':
            self.stack.append(ctxs[-1][0])
            self.remcohort(w, rule, c)
            self.stack.pop()
            changed = True
        return changed

    def bin(self, rule, c):
        return c.delayed if rule.has('DELAYED') else c.ignored if rule.has('IGNORED') else c.deleted

    def unmap(self, rd):
        ch = False
        if rd.mapping:
            self.del_tag(rd, rd.mapping)
            rd.mapping = None
            rd.noprint = False
            ch = True
        if rd.mapped:
            rd.mapped = False
            ch = True
        return ch

    def present(self, rd, tags):
        """Tags of a removal list that the reading has, patterns replaced by what they match."""
        out = []
        for t in tags:
            if not isinstance(t, Tag) or t.kind == 'lit':
                s = t if isinstance(t, str) else t.s
                if s in rd.tags:
                    out.append(s)
                continue
            hit = []
            for y in rd.tags:
                if self.tag_vs(t, y) and y not in hit:
                    hit.append(y)
            if len(hit) > 1:
                raise TooLong()     # which of several is meant is not documented
            out += hit
        return out

    def tag_vs(self, t, y):
        if t.kind == 'icase':
            return t.s.casefold() == y.casefold()
        if t.kind in ('rx', 'srx'):
            return bool(t.rx.search(y))
        if t.kind == 'rxany':
            return is_base(y) if t.s == '".*"' else is_wf(y) if t.s == '"<.*>"' else y[0] == '<' and y[-1] == '>'
        return t.s == y

    def put_tags(self, rd, at, tags):
        """Insert plain tags at a position; returns the mapping tags."""
        maps = []
        for t in tags:
            if self.is_map(t):
                maps.append(t)
            else:
                rd.tags.insert(at, t)
                at += 1
        self.reflow(rd)
        return maps

    def add_tags(self, rd, tags):
        maps = []
        for t in tags:
            if self.is_map(t):
                maps.append(t)
            else:
                self.add_tag(rd, t)
        return maps

    def find_spot(self, rule, rd):
        sp = self.present(rd, [e[0] for e in rule.spot.elems] if len(rule.spot.elems) > 1 else rule.spot.elems[0])
        if not sp:
            raise TooLong()     # domain: the spot names at least one present tag
        n = len(sp)
        for i in range(len(rd.tags)):
            if rd.tags[i:i + n] == sp:
                at = i + (n if rule.where == 'AFTER' else 0)
                return at if at < len(rd.tags) else None
        return None

    def edit(self, w, rule, c, x):
        ty = rule.type
        rd = x.sub
        if ty == 'PROTECT':
            rd.prot = True
            return False
        if ty == 'UNPROTECT':
            rd.prot = False
            return False
        if ty == 'UNMAP':
            return self.unmap(rd)
        if ty in ('ADD', 'MAP'):
            was = rd.full()
            rd.noprint = False
            tags = self.tags_of(rule.tags, x)
            at = self.find_spot(rule, rd) if rule.where else None
            n0 = len(c.readings)
            maps = self.put_tags(rd, at, tags) if at is not None else self.add_tags(rd, tags)
            if maps:
                self.split_mappings(maps, c, rd, ty == 'MAP')
            if ty == 'MAP':
                rd.mapped = True
            return rd.full() != was or len(c.readings) != n0
        if ty == 'REPLACE':
            was = rd.full()
            rd.noprint = False
            keep = []
            for t in rule.tags2 or []:
                for y in rd.tags:
                    if self.tag_vs(t, y):
                        keep.append(y)
            base = rd.base
            rd.tags = [c.wf]
            rd.base = None
            self.reflow(rd)
            maps = self.add_tags(rd, self.tags_of(rule.tags, x))
            for y in keep:
                self.add_tag(rd, y)
            if not rd.base:
                self.add_tag(rd, base)
            if maps:
                self.split_mappings(maps, c, rd, True)
            return rd.full() != was
        if ty == 'SUBSTITUTE':
            return self.substitute(rule, c, x, rd)
        if ty == 'APPEND':
            new = []
            for t in self.tags_of(rule.tags, x):
                if is_base(t):
                    new.append([])
                new[-1].append(t)
            for tags in new:
                r = Rd(c)
                r.number = len(c.readings) * 1000 + 1000
                self.add_tag(r, c.wf)
                maps = self.add_tags(r, tags)
                if maps:
                    self.split_mappings(maps, c, r, False)
                c.append(r)
            if len(c.readings) > 1:
                c.readings = [r for r in c.readings if not r.noprint]
            return 'break'
        if ty == 'COPY':
            r = x.reading.copy()
            r.number += 100
            for q in r.chain():
                q.prot = False
            c.append(r)
            r.noprint = False
            if rule.tags2 is not None:
                kill = []
                for t in rule.tags2:
                    for y in r.tags:
                        if self.tag_vs(t, y):
                            kill.append(y)
                    kill.append(t.s)
                for q in r.chain():
                    for y in kill:
                        self.del_tag(q, y)
            tags = self.tags_of(rule.tags, x)
            at = self.find_spot(rule, r) if rule.where else None
            maps = self.put_tags(r, at, tags) if at is not None else self.add_tags(r, tags)
            if maps:
                self.split_mappings(maps, c, r, True)
            self.reflow(r)
            return True
        if ty == 'RESTORE':
            src = c.delayed if rule.has('DELAYED') else c.ignored if rule.has('IGNORED') else c.deleted
            back = [r for r in src if self.match_set(rule.cs1, r)]
            for r in back:
                src.remove(r)
                r.deleted = False
                c.readings.append(r)
            return 'done'
        if ty in ('SETVARIABLE', 'REMVARIABLE', 'DELIMIT', 'REMCOHORT', 'JUMP'):
            return False
        if ty == 'WITH':
            ch = False
            for sr in rule.rules:
                n = 0
                while True:
                    n += 1
                    if n > 100:
                        raise TooLong()
                    targets = [c]
                    for e in sr.target.elems if sr.target.kind == 'list' else []:
                        for t in e:
                            if t.kind == 'sp' and t.s.startswith('_C') and int(t.s[2]) <= len(x.context):
                                y = x.context[int(t.s[2]) - 1]
                                if y is not None and y not in targets:
                                    targets.append(y)
                    targets.sort(key=lambda y: y.num)
                    a = self.run_rule(w, sr, targets)
                    ch = ch or bool(a)
                    if not (a and sr.has('REPEAT')):
                        break
            return 'break' if ch else 'done'
        return self.structural(w, rule, c, x)

    def substitute(self, rule, c, x, rd):
        was = rd.full()
        n0 = len(c.readings)
        gone = self.present(rd, rule.tags2)
        app = len(rule.tags2) == 1 and rule.tags2[0].s == '*'
        tags = self.tags_of(rule.tags, x)
        if tags == ['*']:
            tags = []
        idx = [i for i, t in enumerate(rd.tags) if t in gone]
        if rd.base in gone:
            rd.base = None
        if app:
            maps = self.put_tags(rd, len(rd.tags), tags)
        elif not idx:
            return False
        elif len(gone) == 1:
            maps = []
            out = []
            for t in rd.tags:
                if t in gone:
                    maps += [y for y in tags if self.is_map(y)]
                    out += [y for y in tags if not self.is_map(y)]
                else:
                    out.append(t)
            rd.tags = out
            self.reflow(rd)
        else:
            at = idx[-1] - (len(idx) - 1)
            rd.tags = [t for t in rd.tags if t not in gone]
            maps = self.put_tags(rd, at, tags)
        rd.noprint = False
        self.reflow(rd)
        if maps:
            self.split_mappings(maps, c, rd, True)
        wf = next((t for t in tags if is_wf(t)), None)
        if wf and wf != c.wf:
            for r in c.readings + c.deleted + c.delayed:
                self.del_tag(r, c.wf)
                self.add_tag(r, wf)
            c.wf = wf
        return rd.full() != was

    # ---- dependencies and relations -----------------------------------------
    def root_of(self, c):
        return c.win.cohorts[0]

    def detach(self, c):
        if c.parent != NOPARENT:
            p = self.root_of(c) if c.parent == 0 else self.by_gid(c.parent)
            if p is not None and c.gid in p.children:
                p.children.remove(c.gid)
        c.parent = NOPARENT

    def would_loop(self, p, c):
        if p is c or c is self.root_of(c):
            return True
        seen = set()
        while p is not None and p.parent not in (0, NOPARENT) and p not in seen:
            seen.add(p)
            p = self.by_gid(p.parent)
            if p is c:
                return True
        return False

    def attach(self, p, c, rule):
        self.has_dep = True
        if not rule.has('ALLOWLOOP') and self.would_loop(p, c):
            self.ev('loop')
            return False
        self.detach(c)
        c.parent = p.gid
        if c.gid not in p.children:
            p.children.append(c.gid)
        self.ev('attached')
        return True

    def structural(self, w, rule, c, x):
        ty = rule.type
        if ty in ('ADDCOHORT', 'SPLITCOHORT', 'MERGECOHORTS', 'COPYCOHORT', 'MOVE', 'SWITCH'):
            return self.cohort_rule(w, rule, c, x)
        if ty == 'REMPARENT':
            self.detach(c)
            self.ev('removed')
            return 'break'
        if ty == 'SWITCHPARENT':
            if c.parent in (0, NOPARENT):
                return 'done'
            p = self.by_gid(c.parent)
            if p is None or p.num == 0:
                return 'done'
            gp = p.parent
            sibs = [y for y in w.cohorts if rule.cs1 is not None and y is not c and y.parent == p.gid and self.cohort_has(y, rule.cs1)]
            for y in [c, p] + sibs:
                self.detach(y)
            if gp != NOPARENT:
                g = w.cohorts[0] if gp == 0 else self.by_gid(gp)
                if g is not None:
                    self.attach(g, c, rule)
            for y in [p] + sibs:
                self.attach(c, y, rule)
            self.ev('switched')
            return 'break'
        return self.link_rule(rule, c, x)

    def cohort_has(self, c, s):
        return self.normal(c, s, {'test': None, 't': None, 'origin': None, 'did': False, 'matched': False, 'bar': False, 'lres': None})

    def link_rule(self, rule, c, x):
        """SETPARENT, SETCHILD and the relation rules: find the cohort to link with, and go on from there when it cannot be used."""
        t = rule.dep_tests[0]
        off = t.off
        seen = {c}
        start = c
        res = 'done'
        n = 0
        try:
            while True:
                n += 1
                if n > 100:
                    raise TooLong()
                x.attach = x.attach_rd = x.attach_sub = None
                self.seen_deep = set()
                self.seen_bar = False
                K = {'deep': None}
                if self.test(start.win, start.num, t, None, K) is None or K['deep'] is None:
                    break
                at = x.attach or K['deep']
                stop = self.seen_bar or rule.has('NEAREST')
                good = True
                for d in rule.dep_tests[1:]:
                    x.mark = at
                    self.seen_deep = set()
                    if self.test(at.win, at.num, d) is None:
                        good = False
                        break
                if good:
                    r = self.linked_to(rule, c, at, x)
                    if r is not None:
                        if r:
                            x.sub.noprint = False
                            res = 'break'
                        break
                if n > 1 or not good:
                    self.ev('onward')
                if stop or at in seen:
                    break
                seen.add(at)
                start = at
                if t.off:
                    t.off = -1 if t.off < 0 else 1
        finally:
            t.off = off
        return res

    def linked_to(self, rule, c, at, x):
        """None when it cannot be done, else whether something changed."""
        ty = rule.type
        a, b = (at, c) if rule.to == 'FROM' or rule.has('REVERSE') else (c, at)
        if ty == 'SETPARENT':
            return True if self.attach(b, a, rule) else None
        if ty == 'SETCHILD':
            return True if self.attach(a, b, rule) else None
        self.has_rel = True
        did = False
        two = ty.endswith('S')
        op = ty[:3]
        todo = [(a, b, t) for t in self.tags_of(rule.tags, x)]
        if two:
            todo += [(b, a, t) for t in self.tags_of(rule.tags2, x)]
        for y, z, name in todo:
            have = y.rels.get(name, set())
            if op != 'REM':
                y.rels[name] = have
            pre = 'R:%s:' % name
            if op in ('ADD', 'SET'):
                for q in (y,) if two else (y, z):
                    q.related = True
                    for r in q.readings:
                        r.noprint = False
            if op == 'REM':
                if z.gid in have:
                    have.remove(z.gid)
                    if not have:
                        del y.rels[name]
                    did = True
                    self.ev('unrelated')
                for r in y.readings:
                    self.del_tag(r, pre + str(z.gid))
                continue
            if op == 'SET':
                y.rels_in.pop(name, None)
                if have != {z.gid}:
                    did = True
                    if have:
                        self.ev('replaced')
                have.clear()
                have.add(z.gid)
                for r in y.readings:
                    for q in [q for q in r.tags if q.startswith(pre)]:
                        self.del_tag(r, q)
            elif z.gid not in have:
                have.add(z.gid)
                did = True
            for r in y.readings:
                self.add_tag(r, pre + str(z.gid))
            self.ev('related')
        return did

    # ---- rules that change which cohorts there are --------------------------
    def subtree(self, head, cs):
        """The head alone, or with those of its children that match and all below these; in window order."""
        if cs is None:
            return [head]
        w = head.win
        top = [y for y in w.cohorts if y is head or (y.parent == head.gid and self.cohort_has(y, cs))]
        rest = [y for y in w.cohorts if any(t is not head and self.below(y, t) for t in top)]
        return [y for y in w.cohorts if y in top or y in rest]

    def below(self, y, top):
        seen = set()
        while y is not None and y not in seen:
            if y is top or y.parent == top.gid:
                return True
            seen.add(y)
            if y.parent in (0, NOPARENT):
                return False
            y = self.by_gid(y.parent)
        return False

    def endtag(self, w):
        """<<< is on the last cohort of the window and on no other."""
        last = w.cohorts[-1]
        for y in w.cohorts[:-1]:
            for r in y.readings:
                self.del_tag(r, '<<<')
        for r in last.readings:
            if '<<<' not in r.tags:
                self.add_tag(r, '<<<')

    def gone(self, w, c):
        c.removed = True
        w.cohorts.remove(c)
        self.renumber(w)
        self.cmap.pop(c.gid, None)
        self.reset = True

    def drop(self, w, c):
        root = self.root_of(c)
        for k in list(c.children):
            ch = self.by_gid(k)
            if ch is not None:
                p = self.by_gid(c.parent) if c.parent not in (0, NOPARENT) else None
                self.tie(p or root, ch)
        c.children = []
        if c.parent not in (0, NOPARENT):
            p = self.by_gid(c.parent)
            if p is not None and c.gid in p.children:
                p.children.remove(c.gid)
        self.gone(w, c)

    def tie(self, p, c):
        """Attach without looking for loops."""
        self.detach(c)
        c.parent = p.gid
        if c.gid not in p.children:
            p.children.append(c.gid)

    def remcohort(self, w, rule, c):
        last = c is w.cohorts[-1]
        if rule.has('IGNORED'):
            tree = self.subtree(c, rule.cs1)
            c.num -= tree.index(c)
            for y in reversed(tree):
                last = last or y is w.cohorts[-1]
                y.ignoredc = True
                w.cohorts.remove(y)
                self.cmap.pop(y.gid, None)
            self.renumber(w)
            self.reset = True
        else:
            self.drop(w, c)
        if last:
            for r in w.cohorts[-1].readings:
                if '<<<' not in r.tags:
                    self.add_tag(r, '<<<')
        self.ev('remcohort')

    def new_cohort(self, w, wf):
        y = Coh(wf)
        y.win = w
        y.gid = self.gid
        self.gid += 1
        self.cmap[y.gid] = y
        return y

    def fill(self, y, tags, front):
        """Readings for a new cohort; each starts with its baseform, * stands for what else the first reading of the old cohort has."""
        rds = []
        for t in tags:
            if is_base(t):
                rds.append([])
            rds[-1].append(t)
        for ts in rds:
            r = Rd(y)
            self.add_tag(r, y.wf)
            maps = []
            for t in ts:
                # the first two tags are the word form and the baseform
                for q in ([t] if t != '*' else [q for q in front.tags[2:] if not DEP_RX.match(q)]):
                    if self.is_map(q):
                        maps.append(q)
                    else:
                        self.add_tag(r, q)
            if maps:
                self.split_mappings(maps, y, r, False)
            y.append(r)

    def insert(self, w, y, at, after):
        w.cohorts.insert(at.num + (1 if after else 0), y)
        w.all.insert(w.all.index(at) + (1 if after else 0), y)
        self.renumber(w)
        self.reset = True

    def cohort_rule(self, w, rule, c, x):
        ty = rule.type
        if ty == 'ADDCOHORT':
            tags = self.tags_of(rule.tags, x)
            y = self.new_cohort(w, tags[0])
            self.fill(y, tags[1:], c.readings[0])
            if 'addcohort-attach' in self.g.header:
                self.tie(c, y)
            tree = self.subtree(c, rule.cs1)
            self.insert(w, y, *((tree[0], False) if rule.where == 'BEFORE' else (tree[-1], True)))
            if y is w.cohorts[-1]:
                self.endtag(w)
            self.ev('addcohort')
            return 'break'
        if ty == 'SPLITCOHORT':
            return self.split_cohort(w, rule, c, x)
        if ty == 'MERGECOHORTS':
            return self.merge_cohorts(w, rule, c, x)
        # what the rule is about
        t = rule.dep_tests[0]
        x.attach = x.attach_rd = x.attach_sub = None
        self.seen_deep = set()
        K = {'deep': None}
        if self.test(w, c.num, t, None, K) is None or K['deep'] is None:
            return 'done'
        at = x.attach or K['deep']
        if K['deep'].win is not w:
            raise TooLong()
        for d in rule.dep_tests[1:]:
            x.mark = at
            self.seen_deep = set()
            if self.test(at.win, at.num, d) is None:
                return 'done'
        if at is c:
            return 'done'
        if ty == 'COPYCOHORT':
            y = self.new_cohort(w, c.wf)
            y.static = list(c.static)
            if c.wread is not None:
                y.wread = c.wread
            new = [t for t in self.tags_of(rule.tags, x) if t != '*']
            less = self.tags_of(rule.tags2, x) if rule.tags2 is not None else []
            for r in c.readings:
                copies = []
                for q in r.chain():
                    n = Rd(y)
                    maps = []
                    for t in q.tags + new:
                        if self.is_map(t):
                            maps.append(t)
                        else:
                            self.add_tag(n, t)
                    if maps:
                        self.split_mappings(maps, y, n, False)
                    copies.append(n)
                for a, b in zip(copies, copies[1:]):
                    a.sub = b
                y.append(copies[0])
            for r in y.readings:
                for q in r.chain():
                    for t in less:
                        self.del_tag(q, t)
            tree = self.subtree(at, rule.cs2)
            if rule.to == 'TO BEFORE':
                if tree[0].num == 0:
                    self.insert(w, y, tree[0], True)
                else:
                    self.insert(w, y, tree[0], False)
                self.tie(tree[0], y)
            else:
                self.insert(w, y, tree[-1], True)
                self.tie(tree[-1], y)
            self.endtag(w)
            self.ev('copycohort')
            return 'break'
        # MOVE and SWITCH
        was = [(y, y.readings[0].full()) for y in w.cohorts]
        a, b = (at, c) if rule.has('REVERSE') else (c, at)
        if a.num == 0:
            return 'done'
        if ty == 'SWITCH':
            if b.num == 0:
                return 'done'
            for ls in (w.cohorts, w.all):
                i, j = ls.index(a), ls.index(b)
                ls[i], ls[j] = ls[j], ls[i]
        else:
            edges = self.subtree(b, rule.cs2)
            moving = self.subtree(a, rule.cs1)
            if any(y in edges for y in moving):
                if self.below(a, b):
                    edges = [y for y in edges if y not in moving]
                else:
                    moving = [y for y in moving if y not in edges]
            if not edges or not moving:
                return 'done'
            for ls in (w.cohorts, w.all):
                for y in moving:
                    ls.remove(y)
                if rule.to == 'BEFORE':
                    i = ls.index(edges[0])
                    if i == 0 or edges[0].num == 0:
                        i += 1
                else:
                    i = ls.index(edges[-1]) + 1
                ls[i:i] = moving
        self.renumber(w)
        if [y for y, h in was] == w.cohorts:
            return 'done'
        self.endtag(w)
        self.ev(ty.lower())
        self.hits = getattr(self, 'hits', 0) + 1
        if self.hits > 60:
            raise TooLong()
        return 'stopmove'

    def split_cohort(self, w, rule, c, x):
        parts = []
        for t in self.tags_of(rule.tags, x):
            if is_wf(t):
                parts.append([t, [], None, None, False])
            elif PART_RX.match(t):
                a, b = PART_RX.match(t).groups()
                parts[-1][2:4] = [a, b]
            elif t == 'R:*':
                parts[-1][4] = True
            else:
                parts[-1][1].append(t)
        n = len(parts)
        new = []
        spot = c
        for wf, tags, a, b, rel in parts:
            y = self.new_cohort(w, wf)
            self.fill(y, tags, c.readings[0])
            self.insert(w, y, spot, True)
            spot = y
            new.append(y)
        new[-1].text, c.text = c.text, ''
        for i, y in enumerate(new):
            a, b = parts[i][2:4]
            if a is None:
                a = 'c' if i == n - 1 else str(i + 1)
                b = 'p' if i == 0 else str(i)
            if a in 'cd':
                for k in list(c.children):
                    ch = self.by_gid(k)
                    if ch is not None:
                        self.tie(y, ch)
                c.children = []
            if b in 'pm':
                if c.parent == 0:
                    self.tie(w.cohorts[0], y)
                elif c.parent != NOPARENT and self.by_gid(c.parent) is not None:
                    self.tie(self.by_gid(c.parent), y)
            else:
                self.tie(new[int(b) - 1], y)
        if c.related:
            to = next((i for i, p in enumerate(parts) if p[4]), next((i for i, p in enumerate(parts) if p[2] in ('c', 'd')), n - 1))
            y = new[to]
            y.related = True
            y.rels, c.rels = c.rels, {}
            self.rewire({c.gid}, y.gid)
        self.detach(c)
        self.gone(w, c)
        self.endtag(w)
        self.ev('splitcohort')
        return 'break'

    def rewire(self, old, new):
        for v in self.prevs + [self.current] + self.queue:
            for q in v.cohorts:
                for k in q.rels:
                    if q.rels[k] & old:
                        q.rels[k] = (q.rels[k] - old) | {new}

    def merge_cohorts(self, w, rule, c, x):
        withs = [c]
        for t in rule.dep_tests:
            x.attach = x.attach_rd = x.attach_sub = None
            self.merge_with = None
            x.mark = c
            self.seen_deep = set()
            K = {'deep': None}
            if self.test(w, c.num, t, None, K) is None or K['deep'] is None:
                return 'done'
            y = self.merge_with or K['deep']
            if y.win is not w:
                raise TooLong()
            if y.num == 0:
                return 'done'
            if y not in withs:
                withs.append(y)
        withs.sort(key=lambda y: y.num)
        tags = self.tags_of(rule.tags, x)
        y = self.new_cohort(w, tags[0])
        self.fill(y, tags[1:], c.readings[0])
        if not rule.has('DETACH'):
            p = None
            if c.parent == 0:
                p = w.cohorts[0]
            elif c.parent != NOPARENT:
                p = self.by_gid(c.parent)
            if p is None and self.has_dep:
                # the nearest cohort that stays, to the right first
                i = 1
                while p is None:
                    for q in (c.num + i, c.num - i):
                        if p is None and 0 <= q < len(w.cohorts) and w.cohorts[q] not in withs:
                            p = w.cohorts[q]
                    i += 1
            if p is not None:
                self.tie(p, y)
            ids = {q.gid for q in withs}
            for q in withs:
                if q.related:
                    for k in q.rels:
                        y.rels.setdefault(k, set()).update(q.rels[k])
                    y.related = True
            for q in w.all:
                if q.parent in ids and not self.would_loop(y, q):
                    self.tie(y, q)
                for k in q.rels:
                    if q.rels[k] & ids:
                        q.rels[k] = (q.rels[k] - ids) | {y.gid}
                        y.related = True
        self.insert(w, y, c, True)
        for q in withs:
            self.drop(w, q)
        self.endtag(w)
        self.ev('mergecohorts')
        return 'break'

    def delimit_at(self, w, c):
        nw = Win()
        self.nwin += 1
        nw.number = w.number + 0.5
        if w is self.current:
            self.queue.insert(0, nw)
        else:
            self.queue.insert(self.queue.index(w) + 1, nw)
        nw.flush, w.flush = w.flush, nw.flush
        nw.post, w.post = w.post, nw.post
        nw.has_encl = w.has_encl
        b = Coh('>>>')
        b.gid = self.gid
        self.gid += 1
        r = Rd(b)
        r.tags = ['>>>']
        r.base = '>>>'
        b.append(r)
        self.put(nw, b)
        i = w.all.index(c) + 1
        for y in w.all[i:]:
            y.win = nw
            if y.enclosed or y.removed or y.ignoredc:
                nw.all.append(y)
            else:
                y.num = len(nw.cohorts)
                nw.cohorts.append(y)
                nw.all.append(y)
        del w.all[i:]
        del w.cohorts[c.num + 1:]
        for rd in w.cohorts[-1].readings:
            self.add_tag(rd, '<<<')
        self.relink()
        return nw

    def reflow_deps(self):
        """Give the cohorts read so far their parents; each window is numbered by itself."""
        for w in [self.current] + self.queue:
            ids = {}
            todo = []
            for c in w.all:
                if c.depself and not c.depdone:
                    ids[c.depself] = c
                    todo.append(c)
            for c in todo:
                c.depdone = True
                if c.parent_in is None or (c.parent_in and c.parent_in not in ids):
                    continue
                p = ids[c.parent_in] if c.parent_in else w.cohorts[0]
                c.parent = p.gid if c.parent_in else 0
                p.children.append(c.gid)

    def reflow_rels(self):
        for w in self.prevs + [self.current] + self.queue:
            for c in w.all:
                for k in sorted(c.rels_in):
                    left = set()
                    for i in sorted(c.rels_in[k]):
                        if i in self.relmap:
                            c.rels.setdefault(k, set()).add(self.relmap[i])
                        else:
                            left.add(i)
                    if left:
                        c.rels_in[k] = left
                    else:
                        del c.rels_in[k]

    # ---- output -------------------------------------------------------------
    def print_window(self, w):
        w.printed = True
        for c in w.all:
            self.cmap.pop(c.gid, None)
        for k in w.vars_out:
            self.out.append(('cmd', self.varcmd(k, w.vars_set)))
        self.text(w.text)
        for c in w.all:
            self.print_cohort(c)
        self.text(w.post)
        if w.flush:
            self.out.append(('cmd', '<STREAMCMD:FLUSH>'))

    def text(self, t):
        if t.strip(' \n\t\r'):
            self.out.append(('text', t))

    def print_cohort(self, c):
        if c.num == 0 and not c.removed and c.wf == '>>>':
            self.text(c.text)
            return
        if c.removed:
            self.text(c.text)
            return
        rs = c.readings + c.ignored
        if not self.o.split_mappings:
            rs = self.merge(rs)
        items = []
        for r in rs:
            if r.noprint or r.deleted:
                continue
            lines = []
            n = 1
            for q in r.chain():
                if q.noprint:
                    break
                lines.append('\t' * n + self.show(c, q))
                n += 1
            items.append((r.number, lines))
        items.sort(key=lambda t: t[0])
        self.out.append(('coh', c.wf, tuple(c.static), items))
        self.text(c.text)

    def merge(self, rs):
        rs = sorted(rs, key=lambda r: 0)
        last = {}
        groups = {}
        order = []
        hidden = set()
        for r in rs:
            key = tuple(q.plain() for q in r.chain())
            nm = sum(1 for q in r.chain() if q.mapping)
            if key in last:
                if last[key][0] and nm == 0:
                    hidden.add(id(r))
                elif last[key][0] != nm and last[key][0] == 0:
                    hidden.add(id(last[key][1]))
            last[key] = (nm, r)
            k = (key, nm)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(r)
        out = []
        if len(groups) == len(rs):
            return [r for r in rs if id(r) not in hidden]
        for k in order:
            g = groups[k]
            n = g[0].copy()
            n.coh = g[0].coh
            if n.mapping:
                n.tags.remove(n.mapping)
            for r in g:
                if r.mapping and r.mapping not in n.tags:
                    n.tags.append(r.mapping)
            if id(g[0]) not in hidden:
                out.append(n)
        return out

    def show(self, c, q):
        out = [q.base] if q.base else ['']
        maps = []
        for t in q.tags:
            if t == '<<<' and not self.o.show_end or t == '>>>' or t == q.base or t == c.wf:
                continue
            if self.has_dep and not self.o.dep_original and DEP_RX.match(t):
                continue
            if self.has_rel and (REL_RX.match(t) or ID_RX.match(t)):
                continue
            if self.is_map(t):
                maps.append(t)
                continue
            out.append(t)
        s = ' '.join(out + maps)
        if self.has_dep:
            s += self.show_dep(c)
        if c.related or self.o.print_ids:
            s += self.show_rel(c)
        return s

    def show_dep(self, c):
        p = c
        if c.parent == 0:
            p = c.win.cohorts[0]
        elif c.parent != NOPARENT:
            p = next((y for y in c.win.all if y.gid == c.parent), c)
        if self.o.dep_absolute:
            return ' #%d->%d' % (c.gid, p.gid)
        return ' #%d->%d' % (c.num, p.num)

    def show_rel(self, c):
        return ' ID:%d' % c.gid + ''.join(sorted(' R:%s:%d' % (k, g) for k, v in c.rels.items() for g in v))


class Delimited(Exception):
    pass


VARCMD = re.compile(r'<STREAMCMD:(SET|REM)VAR:')


# ---- comparing with the real output ---------------------------------------
def parse_out(text):
    """Real output as items shaped like Runner.out."""
    out = []
    cur = None
    tx = ''

    def flush():
        nonlocal tx
        if tx:
            out.append(('text', tx))
        tx = ''
    ign = False
    for line in text.split('\n')[:-1] if text.endswith('\n') else text.split('\n'):
        m = WF_RX.match(line)
        if line in ('<STREAMCMD:IGNORE>', '<STREAMCMD:RESUME>'):
            ign = line == '<STREAMCMD:IGNORE>'
        elif ign and not line.startswith('<STREAMCMD:'):
            tx += line + '\n'
            continue
        if m:
            flush()
            cur = ('coh', m.group(1), tuple(split_tags(line[m.end():])), [])
            out.append(cur)
        elif line.startswith('\t') and cur is not None and line.lstrip('\t').startswith('"'):
            if line.startswith('\t\t') and cur[3]:
                cur[3][-1].append(line)
            else:
                cur[3].append([line])
        elif line.startswith('<STREAMCMD:'):
            flush()
            out.append(('cmd', line))
            cur = None
        else:
            tx += line + '\n'
            cur = None
    flush()
    return out


def same(ref, real):
    """None when equal, else a description."""
    # text pieces next to each other are one piece; blank-only lines vanish
    def norm(xs):
        out = []
        for x in xs:
            if x[0] == 'text':
                t = x[1]
                if out and out[-1][0] == 'text':
                    out[-1] = ('text', out[-1][1] + t)
                else:
                    out.append(('text', t))
            else:
                out.append(x)
        i = 0
        while i < len(out):
            j = i
            while j < len(out) and out[j][0] == 'cmd' and VARCMD.match(out[j][1]):
                j += 1
            out[i:j] = sorted(out[i:j])     # the order among variables set together is not specified
            i = max(j, i + 1)
        return out
    a, b = norm(ref), norm(real)
    for i in range(max(len(a), len(b))):
        if i >= len(a):
            return "extra output item %r" % (b[i],)
        if i >= len(b):
            return "missing output item %r" % (a[i],)
        x, y = a[i], b[i]
        if x[0] != y[0]:
            return "item %d: expected %r, got %r" % (i, x, y)
        if x[0] == 'text':
            if [l for l in x[1].split('\n') if l.strip()] != [l for l in y[1].split('\n') if l.strip()]:
                return "text: expected %r, got %r" % (x[1], y[1])
        elif x[0] == 'cmd':
            if x[1] != y[1]:
                return "command: expected %r, got %r" % (x[1], y[1])
        else:
            if x[1] != y[1] or x[2] != y[2]:
                return "cohort: expected %s %s, got %s %s" % (x[1], x[2], y[1], y[2])
            want = x[3]
            got = y[3]
            if len(want) != len(got):
                return "cohort %s: expected readings %r, got %r" % (x[1], [l for _, l in want], got)
            k = 0
            while k < len(want):
                e = k
                while e < len(want) and want[e][0] == want[k][0]:
                    e += 1
                if sorted(l for _, l in want[k:e]) != sorted(got[k:e]):
                    return "cohort %s: expected readings %r, got %r" % (x[1], [l for _, l in want], got)
                k = e
    return None
