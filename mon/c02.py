r"""C02: macro expansion vs an independent evaluator (mon/minitex.py).

Drives: TeX().input(program).parse().textContent
Monitors: the visible text of the processed document equals the text the reference evaluator
computes for the same program.
"""
from . import minitex

ID = 'C02'
RULE = 'a program counts if it is valid TeX (reference evaluates it without error), calls at least one user macro and shows text'
QUICK = (26000, 45)
THOROUGH = (600000, 780)
REQUIRED = ['programs', 'macro_call', 'arg_group', 'arg_token', 'arg_delimited', 'opt_present', 'opt_absent',
            'hash_brace', 'let', 'csname', 'expandafter', 'newcommand', 'macro_call_9']
ASSUMPTIONS = ['reference evaluator mon/minitex.py (calibrated against the installed LaTeX, see DESIGN.md)',
               'normal form of DESIGN.md: no recursion, no delimiter hidden in braces, no error-raising programs',
               'visible text compared up to runs of blanks']

NAMES = ['ma', 'mb', 'mab', 'mc', 'md', 'mx', 'mxx', 'my', 'mz', '+', '?', 'mq']
CSN = set(NAMES + ['mund', 'csid', 'cstwo'])
STOPS = ['stop', 'endma', 'relax', 'mstop']
CHARS = 'abcdeghknopqrsu0123456789.,;:!()/*='


class Gen(object):
    def __init__(self, src):
        self.s = src
        self.scopes = [{}]      # name -> (sig, rank)
        self.active = False
        self.level = 0          # nesting level of definitions
        self.params = []        # per level: number of params
        self.ban = []           # stacks of forbidden characters (delimiters being collected)
        self.budget = 60
        self.maxrank = 99

    def lookup(self):
        d = {}
        for sc in self.scopes:
            d.update(sc)
        return d

    def banned(self):
        return ''.join(self.ban)

    def chars(self, n):
        ok = [c for c in CHARS if c not in self.banned()] or ['u']
        return ''.join(self.s.choice(ok) for _ in range(n))

    def cs(self, name):
        """A control sequence followed by a separator that is part of nothing else."""
        if name == '~':
            return '~'
        if name.isalpha():
            return '\\' + name + ' '
        return '\\' + name

    # -- pieces of text
    def text(self, depth, single=False):
        s = self.s
        n = 1 if single else s.weighted([(3, 1), (4, 2), (2, 3), (1, 0), (1, 4)])
        return ''.join(self.item(depth) for _ in range(n))

    def item(self, depth):
        s = self.s
        self.budget -= 1
        if self.budget < 0 or depth <= 0:
            return self.chars(s.int(1, 3))
        k = s.weighted([(6, 'chars'), (8, 'call'), (6, 'param'), (2, 'space'), (2, 'group'), (2, 'def'),
                        (1, 'csname'), (2, 'expandafter'), (1, 'let'), (1, 'relax'), (1, 'ifx')])
        if k == 'chars':
            return self.chars(s.int(1, 3))
        if k == 'space':
            return ' '
        if k == 'relax':
            return '\\relax '
        if k == 'group':
            self.scopes.append({})
            form = s.draw(3)
            if form == 0:
                r = '{' + self.text(depth - 1) + '}'
            elif form == 1:
                r = '\\begingroup ' + self.text(depth - 1) + '\\endgroup '
            else:
                r = '{{' + self.text(depth - 1) + '}' + self.text(depth - 2) + '}'
            self.scopes.pop()
            return r
        if k == 'param':
            lv = [i for i in range(len(self.params)) if self.params[i]]
            if not lv:
                return self.chars(1)
            i = s.choice(lv)
            h = '#' * (1 << (len(self.params) - 1 - i))
            if s.bool(1, 4):
                # pass it on to another macro
                c = self.call(depth - 1, arg=h + str(s.int(1, self.params[i])))
                if c:
                    return c
            return h + str(s.int(1, self.params[i]))
        if k == 'def':
            return self.definition(depth - 1)
        if k == 'let':
            return self.let()
        if k == 'ifx':
            a = self.chars(1)
            b = a if s.bool() else self.chars(1)
            return '\\ifx ' + a + b + self.chars(2) + '\\else ' + self.chars(2) + '\\fi '
        if k == 'csname':
            return self.call(depth - 1, csname=True) or self.chars(1)
        if k == 'expandafter':
            return self.expandafter(depth - 1)
        return self.call(depth - 1) or self.chars(2)

    def candidates(self):
        d = self.lookup()
        return [(n, v[0]) for n, v in sorted(d.items()) if v[1] < self.maxrank]

    def call(self, depth, csname=False, arg=None):
        s = self.s
        c = self.candidates()
        if not c:
            return None
        name, sig = s.choice(c)
        if csname and name != '~':
            head = self.csname(name)
        else:
            head = '\\' + name if name != '~' else '~'
        if sig[0] == 'any':       # alias of a character
            return head + (' ' if head[-1].isalpha() and not csname else '')
        return self.args(head, sig, depth, arg, alpha=name.isalpha() and not csname)

    def csname(self, name):
        s = self.s
        if s.bool(1, 20):
            return '\\csname mund\\endcsname '
        form = s.draw(4)
        if form == 0 or not name.isalpha():
            return '\\csname ' + name + '\\endcsname '
        if form == 1:
            return '\\csname ' + name[0] + '\\csid ' + name[1:] + '\\endcsname '
        if form == 2:
            return '\\csname ' + name[:1] + '\\cstwo{' + name[1:] + '}\\endcsname '
        return '\\csname\\csid ' + name + '\\csid\\endcsname '

    def args(self, head, sig, depth, arg=None, alpha=True):
        s = self.s
        out = head
        if sig[0] == 'nc':
            _, n, opt = sig
            if opt:
                n -= 1
                if s.bool():
                    if alpha and s.bool(1, 4):
                        out += ' '
                    self.ban.append('[]')
                    self.scopes.append({})
                    out += '[' + self.text(depth) + ']'
                    self.scopes.pop()
                    self.ban.pop()
                    alpha = False
            for i in range(n):
                out, alpha = self.undelim(out, depth, alpha, arg if i == 0 else None)
            if n == 0 and out is head and alpha:
                out += ' '
            elif alpha:
                out += ' '
            return out
        pat = sig[1]
        pre, params = pat
        if pre:
            out += (' ' if alpha and pre[0].isalpha() else '') + pre
            alpha = False
        for i, d in enumerate(params):
            a = arg if i == 0 else None
            if d == '':
                out, alpha = self.undelim(out, depth, alpha, a)
            elif d == '{':
                self.ban.append('')
                if alpha:
                    out += ' '
                out += a or (self.chars(s.int(0, 3)))
                out += '{' + self.chars(s.int(0, 2)) + '}'
                self.ban.pop()
                alpha = False
            else:
                if alpha:
                    out += ' '
                self.ban.append(d if d[0] != '\\' else '')
                k = s.draw(4)
                self.scopes.append({})
                if a:
                    out += a
                elif k == 0:
                    out += self.chars(s.int(0, 3))
                elif k == 1:
                    out += '{' + self.text(depth) + '}'
                else:
                    out += self.text(depth)
                self.scopes.pop()
                self.ban.pop()
                if d[0] == '\\':
                    out += d + ' '
                else:
                    # a delimiter of letters must not be glued to a control word
                    out += d
                alpha = False
        if alpha:
            out += ' '
        return out

    def undelim(self, out, depth, alpha, arg=None):
        s = self.s
        if s.bool(1, 6):
            out += ' '
            alpha = False
        if arg:
            return out + s.choice(['{%s}', '%s']) % arg, False
        k = s.weighted([(6, 'group'), (3, 'char'), (2, 'cs'), (1, 'empty')])
        if k == 'cs':
            c = [(n, v) for n, v in self.candidates() if v in (('nc', 0, None), ('def', ('', ())), ('any',)) and n != '~']
            if c:
                n, v = s.choice(c)
                if n.isalpha():
                    return out + '\\' + n, True
                return out + '\\' + n, False
            k = 'group'
        if k == 'char':
            return out + (' ' if alpha else '') + self.chars(1), False
        if k == 'empty':
            return out + '{}', False
        self.scopes.append({})
        r = out + '{' + self.text(depth) + '}'
        self.scopes.pop()
        return r, False

    def expandafter(self, depth):
        s = self.s
        c = [(n, v) for n, v in self.candidates() if v in (('nc', 0, None), ('def', ('', ()))) and n != '~']
        allc = self.candidates()
        k = s.draw(4)
        if k == 0 and allc:
            n, v = s.choice(allc)
            if v[0] != 'any' and n.isalpha():
                return '\\expandafter' + s.choice(['\\csid ', '\\relax ', '{\\relax}'[:0] + '\\csid ']) + \
                    self.args(self.csname(n), v, depth, alpha=False)
        if k == 1 and c:
            return '\\expandafter ' + self.chars(1) + self.cs(s.choice(c)[0])
        if k == 2 and c and allc:
            n, v = s.choice(allc)
            m, _ = s.choice(c)
            if (v[0] == 'nc' and v[1] >= 1 and not v[2]) or (v[0] == 'def' and v[1][0] == '' and v[1][1] and v[1][1][0] == ''):
                head = '\\expandafter' + self.cs(n) + self.cs(m)
                # remaining args are supplied generously: expansion of m gives the first one (or several)
                return head + ''.join('{' + self.chars(1) + '}' for _ in range(s.int(0, 3)))
        if k == 3 and c:
            m, _ = s.choice(c)
            m2, _ = s.choice(c)
            return '\\expandafter\\cstwo\\expandafter{' + self.cs(m) + self.cs(m2) + '}'
        if c:
            m, _ = s.choice(c)
            m2, _ = s.choice(c)
            return '\\expandafter\\expandafter\\expandafter ' + self.chars(1) + '\\csid ' + self.cs(m)[:0] + '\\csid ' + self.cs(m2)
        return self.chars(1)

    # -- definitions
    def pattern(self):
        s = self.s
        n = s.weighted([(3, 0), (6, 1), (6, 2), (3, 3), (1, 4), (1, 9)])
        pre = s.weighted([(6, ''), (1, '('), (1, 'to'), (1, '.')])
        ps = []
        for i in range(n):
            d = s.weighted([(6, ''), (1, ';'), (1, ','), (1, '.'), (1, '/'), (1, '::'), (1, ')'), (1, 'to'),
                            (1, '\\stop'), (1, '\\endma'), (1, ' '), (1, '!*'), (1, 'aab')])
            ps.append(d)
        if n and s.bool(1, 10):
            ps[-1] = '{'
        return pre, tuple(ps)

    def patsrc(self, pat, h):
        pre, ps = pat
        out = pre
        for i, d in enumerate(ps):
            out += h + str(i + 1)
            if d == '{':
                out += h
            elif d and d[0] == '\\':
                out += d + ' '
            else:
                out += d
        return out

    def definition(self, depth, top=False):
        s = self.s
        pool = NAMES + (['~'] if self.active else [])
        known = self.lookup()
        kind = s.weighted([(5, 'def'), (2, 'gdef'), (3, 'newcommand'), (2, 'renewcommand'), (1, 'csdef')])
        fresh = [n for n in pool if n not in known]
        if kind == 'renewcommand':
            have = [n for n in known if n != '~' and known[n][0][0] != 'any']
            if not have:
                kind = 'def'
        if kind == 'newcommand' and not fresh:
            kind = 'def'
        if kind == 'renewcommand':
            name = s.choice(sorted(have))
        elif kind == 'newcommand':
            name = s.choice(fresh)
        else:
            name = s.choice(pool)
        if name == '~' and kind in ('newcommand', 'renewcommand', 'csdef'):
            kind = 'def'
        rank = pool.index(name)
        if rank >= self.maxrank and self.level:
            # keep definitions inside bodies below the rank of the macro being defined
            cand = [n for n in pool[:self.maxrank]]
            if not cand:
                return self.chars(1)
            name = s.choice(cand)
            rank = pool.index(name)
            if kind in ('newcommand', 'renewcommand'):
                kind = 'def'
            if name == '~':
                kind = 'def'
        h = '#' * (1 << len(self.params))
        keep = known.get(name)
        if keep and keep[0][0] != 'any' and s.bool(3, 4) and self.level == 0:
            # same calling convention
            sig = keep[0]
            if (sig[0] == 'nc') != (kind in ('newcommand', 'renewcommand')):
                kind = 'renewcommand' if sig[0] == 'nc' else 'def'
                if name == '~':
                    kind = 'def'
        elif kind in ('newcommand', 'renewcommand'):
            n = s.weighted([(2, 0), (5, 1), (5, 2), (2, 3), (1, 5), (1, 9)])
            sig = ('nc', n, True if n and s.bool(2, 5) else None)
        else:
            sig = ('def', self.pattern())
        if sig[0] == 'nc' and kind not in ('newcommand', 'renewcommand'):
            sig = ('def', self.pattern())
        if sig[0] == 'def' and kind in ('newcommand', 'renewcommand'):
            sig = ('nc', 1, None)
        nparams = sig[1] if sig[0] == 'nc' else len(sig[1][1])
        opt = None
        if sig[0] == 'nc' and sig[2]:
            self.ban.append('[]')
            opt = self.chars(s.int(0, 2))
            self.ban.pop()
        # body
        oldban, self.ban = self.ban, ['[]'] if any('[' in b for b in self.ban) else []
        oldmax, self.maxrank = self.maxrank, min(self.maxrank, rank)
        self.params.append(nparams)
        self.level += 1
        self.scopes.append({})
        body = self.text(depth)
        if nparams and s.bool(3, 4):
            body += h + str(s.int(1, nparams))
        if self.level == 1 and s.bool(1, 12):
            body += '\\string' [:0] + self.chars(1)
        self.scopes.pop()
        self.level -= 1
        self.params.pop()
        self.maxrank = oldmax
        self.ban = oldban
        entry = (sig, rank)
        if kind == 'gdef':
            for sc in self.scopes:
                sc.pop(name, None)
            self.scopes[0][name] = entry
        else:
            self.scopes[-1][name] = entry
        if kind in ('newcommand', 'renewcommand'):
            star = s.choice(['', '', '*'])
            nm = s.choice(['{\\%s}', '\\%s' + (' ' if name.isalpha() else '')]) % name
            out = '\\' + kind + star + nm
            if sig[1]:
                out += '[%d]' % sig[1]
            if opt is not None:
                out += '[' + opt + ']'
            return out + '{' + body + '}'
        if kind == 'csdef':
            return '\\expandafter\\def' + self.csname(name) + self.patsrc(sig[1], h) + '{' + body + '}'
        nm = '\\' + name if name != '~' else '~'
        p = self.patsrc(sig[1], h)
        if name.isalpha() and p[:1].isalpha():
            nm += ' '
        return '\\' + kind + nm + p + '{' + body + '}'

    def let(self):
        s = self.s
        pool = NAMES
        known = self.lookup()
        name = s.choice(pool)
        if pool.index(name) >= self.maxrank:
            return self.chars(1)
        rank = pool.index(name)
        eq = s.choice(['=', '', '= '])
        tgt = [n for n in known if known[n][1] < rank] if self.level else list(known)
        nm = '\\' + name
        if s.bool(2, 3) and tgt:
            t = s.choice(sorted(tgt))
            self.scopes[-1][name] = (known[t][0], max(rank, known[t][1]))
            return '\\let' + nm + eq + self.cs(t)
        if eq == '' and name.isalpha():
            eq = ' '
        self.scopes[-1][name] = (('any',), rank)
        c = s.choice('abcxyz019;')
        return '\\let' + nm + eq + c

    def program(self):
        s = self.s
        out = '\\def\\csid{}\\def\\cstwo#1{#1}'
        self.active = s.bool(1, 6)
        for _ in range(s.int(1, 4)):
            out += self.definition(s.int(0, 3), True)
            if s.bool(1, 4):
                out += ' '
        for _ in range(s.int(1, 6)):
            k = s.weighted([(5, 'item'), (3, 'def'), (2, 'let'), (4, 'call'), (1, 'exp')])
            d = s.int(1, 3)
            if k == 'item':
                out += self.item(d)
            elif k == 'def':
                out += self.definition(d, True)
            elif k == 'let':
                out += self.let()
            elif k == 'exp':
                out += self.expandafter(d)
            else:
                out += self.call(d) or self.chars(1)
            out += s.choice(['', ' ', '\n', '', '%\n'])
        return out


def gen(src, tier):
    g = Gen(src)
    if tier == 'thorough':
        g.budget = 120
    prog = g.program()
    try:
        minitex.run(prog, CSN)
    except minitex.Invalid:
        return None
    return {'src': prog}


def actual(src):
    from plasTeX.TeX import TeX
    tex = TeX()
    tex.input(src)
    doc = tex.parse()
    return doc, tex


def run(case, obs):
    e = minitex.run(case['src'], CSN)
    want = minitex.squeeze(e.text())
    doc, tex = actual(case['src'])
    got = minitex.squeeze(doc.textContent)
    for k, v in e.events.items():
        obs.hit(k, v)
    obs.hit('programs')
    obs.seen('texts', want[:60])
    obs.nontrivial = bool(e.events.get('macro_call')) and bool(want)
    if got != want:
        return 'visible text differs\n expected: %r\n got:      %r' % (want, got)
    return None


def show(case):
    return case['src']


DIRECTED = [
    r'\def\a#1#2{(#1/#2)}\a xy \a{x}{y} \a {x} y',
    r'\def\a#1.#2;{(#1/#2)}\a x.y; \a {x.y}.;' [:0] + r'\def\a#1.#2;{(#1/#2)}\a x.y; \a {x}.{y};',
    r'\def\a#1\stop{(#1)}\a one two\stop z',
    r'\def\a#1#{(#1)}\a b{c}d',
    r'\def\a#1::#2to{(#1/#2)}\a b:c::d t to x',
    r'\def\a(#1,#2){#2#1}\a(x,y)',
    r'\newcommand{\ma}[2][de]{/#1,#2/}\ma{x} \ma[y]{x} \ma [yz]{x}',
    r'\newcommand\ma[1]{\def\b##1{#1##1}}\ma{x}\b{y}\b z',
    r'\def\a{\def\b##1{[##1]}}\a\b x',
    r'\def\a{x}\def\b#1{(#1)}\expandafter\b\a',
    r'\def\a{}\def\b#1{(#1)}\expandafter\b\a xy',
    r'\def\a{1}\def\c{2}\let\b=\a\def\a{3}\a\b\c',
    r'\let\x=a\def\x{b}\x',
    r'\let\x=a\let\y=\x\let\x=b\x\y',
    r'\def\m{\x}\let\x=a\m\let\x=b\m',
    r'\def\x{p}{\def\x{q}\gdef\x{r}\x}\x',
    r'{\def\x{p}{\gdef\x{r}}\x}\x',
    r'\expandafter\def\csname mab\endcsname#1{(#1)}\csname mab\endcsname x\mab y',
    r'\def\a#1#2#3#4#5#6#7#8#9{#9#8#7#6#5#4#3#2#1}\a 123456789',
    r'\def\a#1 #2.{(#1/#2)}\a b c.d',
    r'\def~{x}a~b',
    r'\def\a{x}\let\b\a{\let\b=y\b}\b',
    r'\def\a#1{#1#1}\a{\a{b}}\a{\a{\a{c}}}',
    r'\def\a{x}\begingroup\def\a{y}\a\endgroup\a',
]


def corpus(tier):
    for d in DIRECTED:
        try:
            minitex.run(d, CSN)
        except minitex.Invalid:
            continue
        yield {'src': d}
