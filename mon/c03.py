r"""C03: conditionals vs an independent evaluator (mon/minitex.py).

Drives: TeX().input(program).parse(); monitors the visible text and, after the program, the value of
every counter and every switch (side effects of branches that must not be processed).
"""
from . import minitex

ID = 'C03'
RULE = 'a program counts if it is valid TeX (reference evaluates it without error) and processes at least one conditional'
QUICK = (26000, 45)
THOROUGH = (600000, 780)
REQUIRED = ['programs', 'if_iftrue', 'if_iffalse', 'if_ifnum', 'if_ifdim', 'if_ifodd', 'if_ifcase', 'if_ifx',
            'if_ifdefined', 'if_switch', 'switch_set', 'case_0', 'case_n', 'case_else', 'case_none', 'skip_nested',
            'cond_true', 'cond_false', 'counter_set', 'counter_step', 'num_value', 'macro_call']
ASSUMPTIONS = ['reference evaluator mon/minitex.py (calibrated against the installed LaTeX, see DESIGN.md)',
               'normal form: number literals terminated by \\relax or by the relation; conditionals textually complete; '
               'switches are set outside groups (plasTeX keeps them global, C04)',
               'lengths compared are either equal in TeX and exactly, or differ by more than 0.01pt']

SETUP = (r'\newcounter{ca}\newcounter{cb}\setcounter{ca}{%d}\setcounter{cb}{%d}\newif\ifsa\newif\ifsb'
         r'\def\na{%d}\def\nb{%d}\def\da{%s}\def\xa{%s}\def\xb{%s}\def\two#1#2{#1#2}\def\ifplain{P}'
         r'\let\ifalias=\iftrue ')
CNT = ['ca', 'cb']


class Gen(object):
    def __init__(self, src, budget):
        self.s = src
        self.n = 0
        self.group = 0
        self.inmac = 0
        self.budget = budget
        self.macros = []

    def word(self):
        self.n += 1
        return 'w%dz' % self.n

    def signs(self):
        return self.s.weighted([(8, ''), (3, '-'), (1, '--'), (1, '+'), (1, '- +-'), (1, '-+')])

    def num(self, small=False):
        """An integer operand without terminator."""
        s = self.s
        k = s.weighted([(6, 'lit'), (3, 'value'), (2, 'mac'), (1, 'oct'), (1, 'hex'), (1, 'chr'), (1, 'par')])
        if k == 'par' and not self.inmac:
            k = 'lit'
        if k == 'lit':
            return self.signs() + str(s.weighted([(8, s.int(0, 4)), (2, s.int(0, 30)), (1, s.int(0, 40000))]))
        if k == 'value':
            return self.signs() + r'\value{%s}' % s.choice(CNT)
        if k == 'mac':
            return self.signs() + s.choice([r'\na', r'\nb'])
        if k == 'oct':
            return self.signs() + "'" + '%o' % s.int(0, 20)
        if k == 'hex':
            return self.signs() + '"' + '%X' % s.int(0, 40)
        if k == 'par':
            return '#1'
        return '`' + s.choice(['a', 'A', '0', '\\%', '\\{'])

    def dim(self):
        s = self.s
        if s.bool(1, 6):
            return self.signs() + r'\da'
        v = s.weighted([(5, str(s.int(0, 12))), (3, '%d.%d' % (s.int(0, 9), s.int(0, 99))), (1, '.%d' % s.int(1, 9)),
                        (1, '%d,5' % s.int(0, 9))])
        u = s.weighted([(5, 'pt'), (2, 'mm'), (2, 'cm'), (1, 'in'), (1, 'pc'), (1, 'bp'), (1, 'sp'), (1, 'dd'), (1, 'cc'),
                        (1, 'PT'), (1, ' pt')])
        if u == 'sp':
            v = str(s.int(0, 900000))
        return self.signs() + v + u

    def rel(self):
        s = self.s
        return s.choice(['', ' ']) + s.choice('<=>') + s.choice(['', ' '])

    def fi(self):
        return '\\fi' + self.s.choice([' ', '\\relax ', '\n', '{}'])

    def cond(self, depth):
        s = self.s
        self.budget -= 1
        k = s.weighted([(2, 'iftrue'), (2, 'iffalse'), (4, 'ifnum'), (3, 'ifdim'), (3, 'ifodd'), (5, 'ifcase'),
                        (3, 'ifx'), (2, 'ifdefined'), (4, 'switch'), (1, 'alias')])
        if k == 'ifcase':
            n = s.weighted([(1, 1), (3, 2), (4, 3), (2, 5), (1, 8)])
            sel = s.weighted([(5, str(s.int(0, n - 1))), (2, str(s.int(n, n + 3))), (2, '-' + str(s.int(1, 3))), (3, self.num())])
            out = '\\ifcase' + s.choice(['', ' ']) + sel + '\\relax '
            out += '\\or '.join(self.content(depth - 1) for _ in range(n))
            if s.bool():
                out += '\\else ' + self.content(depth - 1)
            return out + self.fi()
        if k == 'iftrue' or k == 'iffalse':
            head = '\\' + k + ' '
        elif k == 'alias':
            head = '\\ifalias '
        elif k == 'ifnum':
            a = self.num()
            b = a if s.bool(1, 5) else self.num()
            head = '\\ifnum' + s.choice(['', ' ']) + a + self.rel() + b + '\\relax '
        elif k == 'ifdim':
            a = self.dim()
            b = a if s.bool(1, 5) else self.dim()
            if s.bool(1, 8):
                i = s.int(1, 9)
                a, b = '%dcm' % i, '%dmm' % (10 * i)
            head = '\\ifdim' + s.choice(['', ' ']) + a + self.rel() + b + '\\relax '
        elif k == 'ifodd':
            head = '\\ifodd' + s.choice(['', ' ']) + self.num() + '\\relax '
        elif k == 'ifx':
            toks = ['a', 'b', '0', '\\xa ', '\\xb ', '\\xa ', '*']
            head = '\\ifx ' + s.choice(toks) + s.choice(toks)
        elif k == 'ifdefined':
            head = '\\ifdefined' + s.choice(['\\xa ', '\\undefinedcs ', '\\relax ', '\\ca ', '\\xb ', '\\newcommand ',
                                             '\\sidedef '])
        else:
            head = s.choice(['\\ifsa ', '\\ifsb '])
        out = head + self.content(depth - 1)
        if s.bool(3, 5):
            out += '\\else ' + self.content(depth - 1)
        return out + self.fi()

    def content(self, depth):
        s = self.s
        n = s.weighted([(4, 1), (3, 2), (1, 0), (2, 3)])
        return ''.join(self.item(depth) for _ in range(n))

    def item(self, depth):
        s = self.s
        if self.budget <= 0 or depth <= 0:
            return s.choice([self.word, self.effect])()
        k = s.weighted([(4, 'word'), (6, 'cond'), (3, 'effect'), (1, 'group'), (2, 'mac'), (1, 'arg'), (1, 'odd')])
        if k == 'word':
            return self.word()
        if k == 'cond':
            return self.cond(depth)
        if k == 'effect':
            return self.effect()
        if k == 'group':
            self.group += 1
            r = s.choice(['{%s}', '\\begingroup %s\\endgroup ']) % self.content(depth - 1)
            self.group -= 1
            return r
        if k == 'mac' and self.macros:
            return s.choice(self.macros) + s.choice(['{%s}' % self.num(), '{%d}' % s.int(0, 9)])
        if k == 'arg':
            return '\\two{' + self.cond(depth - 1) + '}{' + self.content(depth - 1) + '}'
        if k == 'odd':
            # text which only matters to the branch scanner
            return s.choice(['\\ifplain ', '{\\ifplain}', '\\xa ', 'if', 'fi ', 'else '])
        return self.word()

    def effect(self):
        s = self.s
        k = s.weighted([(2, 'step'), (2, 'set'), (1, 'add'), (3, 'switch'), (1, 'def'), (1, 'gdef')])
        if k == 'switch' and self.group:
            k = 'step'
        if k == 'step':
            return '\\stepcounter{%s}' % s.choice(CNT)
        if k == 'set':
            return '\\setcounter{%s}{%d}' % (s.choice(CNT), s.int(-3, 6))
        if k == 'add':
            return '\\addtocounter{%s}{%d}' % (s.choice(CNT), s.int(-3, 6))
        if k == 'switch':
            return '\\s%s%s ' % (s.choice('ab'), s.choice(['true', 'false']))
        if k == 'def':
            return '\\def%s{%s}' % (s.choice(['\\xa', '\\xb', '\\sidedef']), s.choice('uvw'))
        return '\\gdef%s{%s}' % (s.choice(['\\xa', '\\xb']), s.choice('uvw'))

    def program(self, depth):
        s = self.s
        out = SETUP % (s.int(-2, 5), s.int(-2, 5), s.int(0, 6), s.int(-3, 3),
                       s.choice(['3pt', '-2mm', '1cm', '0.5in']), s.choice('uv'), s.choice('uv'))
        for name in ['\\maca', '\\macb'][:s.int(0, 2)]:
            self.inmac = 1
            g, self.group = self.group, 1
            out += '\\def%s#1{%s}' % (name, self.cond(depth - 1))
            self.group = g
            self.inmac = 0
            self.macros.append(name)
        for _ in range(s.int(1, 3)):
            out += self.word() + ' ' + self.cond(depth)
        out += self.word()
        return out


CSN = set()


def ref(src):
    e = minitex.Engine()
    e.csnames = CSN
    e.dim_margin = True
    e.run(minitex.lex(src))
    return e


def gen(src, tier):
    g = Gen(src, 24 if tier != 'thorough' else 60)
    prog = g.program(src.int(1, 4))
    try:
        ref(prog)
    except minitex.Invalid:
        return None
    return {'src': prog}


def run(case, obs):
    from plasTeX.TeX import TeX
    e = ref(case['src'])
    want = minitex.squeeze(e.text())
    tex = TeX()
    # read the state left behind through the document itself
    probe = ' Q'
    for c in sorted(e.counters):
        probe += r'\arabic{%s}Q' % c
    for w in sorted(e.switches):
        probe += r'\if%s T\else F\fi Q' % w
    tex.input(case['src'] + probe)
    doc = tex.parse()
    got = minitex.squeeze(doc.textContent)
    want += ' Q' + ''.join('%dQ' % e.counters[c] for c in sorted(e.counters))
    want += ''.join('%sQ' % ('T' if e.switches[w] else 'F') for w in sorted(e.switches))
    if not e.out or e.out[-1] == ' ':
        pass
    for k, v in e.events.items():
        obs.hit(k, v)
    obs.hit('programs')
    obs.seen('outcomes', want[:80])
    obs.nontrivial = any(k.startswith('if_') for k in e.events)
    if got.replace(' ', '') != want.replace(' ', ''):
        return 'processed branches differ (text, Q counters Q switches)\n expected: %r\n got:      %r' % (want, got)
    return None


def show(case):
    return case['src']


PRE = SETUP % (1, 2, 3, -1, '3pt', 'u', 'v')
DIRECTED = [PRE + d for d in [
    r'\ifcase 3\relax a\or b\fi', r'\ifcase 3\relax a\or b\else c\fi', r'\ifcase -1\relax a\or b\else c\fi',
    r'\ifcase -1\relax a\or b\or d\fi', r'\ifcase 1\relax a\else c\fi', r'\ifcase 0\relax a\fi', r'\ifcase 1\relax a\fi',
    r'\ifcase 2\relax a\or b\or\ifcase 1\relax x\or y\else z\fi\or c\else d\fi',
    r'\iffalse\ifcase 1\relax a\or b\else c\fi\else d\fi',
    r'\iftrue\iffalse a\else b\fi\else c\fi', r'\iffalse\iffalse a\else b\fi\else\iftrue c\else d\fi\fi',
    r'\ifsa a\else b\fi\satrue\ifsa a\else b\fi\safalse\ifsa a\else b\fi',
    r'\iffalse\satrue\stepcounter{ca}\def\xa{k}\fi\ifsa a\else b\fi\xa',
    r'\iffalse\ifplain a\fi b', r'\iftrue\ifplain a\fi b', r'\iffalse\ifalias x\fi a\else b\fi',
    r'\two{\ifnum\na>2\relax a\else b\fi}{\ifodd\value{ca}\relax c\else d\fi}',
    r'\def\maca#1{\ifnum#1<3\relax a\else\ifnum#1=3\relax b\else c\fi\fi}\maca{1}\maca{3}\maca{4}\maca{\value{cb}}',
    r'\ifdim 1cm=10mm\relax a\else b\fi', r'\ifdim-5pt>2in\relax a\else b\fi', r'\ifx\xa\xb a\else b\fi\ifx\xa\xa a\fi',
    r'\ifdefined\nosuchcs a\else b\fi\ifdefined\xa a\else b\fi',
    r'\newif\ifsc \ifsc a\else b\fi \sctrue \ifsc a\else b\fi',
    r'\iffalse\newif\ifsd \fi x', r'\ifdefined\ifsa a\else b\fi c',
    r'\ifnum`a=97\relax a\else b\fi\ifnum"F=15\relax a\fi' + r"\ifnum'17=15\relax a\fi",
    r'\ifodd-3\relax a\else b\fi\ifodd 0\relax a\else b\fi\ifodd-2\relax a\else b\fi',
]]


def corpus(tier):
    for d in DIRECTED:
        ref(d)
        yield {'src': d}
    # every placement of a 2-branch conditional nested in every branch of another, all selectors
    forms = [r'\iftrue %s\else %s\fi ', r'\iffalse %s\else %s\fi ', r'\ifcase %d\relax %s\or %s\else %s\fi ',
             r'\ifcase %d\relax %s\or %s\fi ', r'\ifnum %d<1\relax %s\else %s\fi ', r'\iftrue %s\fi ', r'\iffalse %s\fi ',
             r'\ifodd %d\relax %s\else %s\fi ', r'\ifsa %s\else %s\fi ']

    def inst(f, subs, sel):
        out = ''
        i = 0
        k = 0
        while i < len(f):
            if f.startswith('%d', i):
                out += str(sel)
                i += 2
            elif f.startswith('%s', i):
                out += subs(k)
                k += 1
                i += 2
            else:
                out += f[i]
                i += 1
        return out
    for f in forms:
        for sel in ((-1, 0, 1, 2, 3) if '%d' in f else (0,)):
            for g in forms:
                for sel2 in ((-2, 0, 1, 2) if '%d' in g else (0,)):
                    for at in range(f.count('%s')):
                        inner = inst(g, lambda k: r'\stepcounter{ca}i%dz' % k, sel2)
                        src = PRE + inst(f, lambda k: ('o%dz' % k + inner + 'p%dz' % k) if k == at else r'\satrue o%dz' % k, sel) + 'end'
                        yield {'src': src}
