r"""C19: ifthen tests evaluate as the boolean expression they spell.

A test is generated as a syntax tree together with its value; \ifthenelse and \whiledo programs are written
around such tests and the branch marker words, the counters changed inside the branches and the number of
iterations are observed in the document text.
"""
import itertools

ID = 'C19'
RULE = 'a program counts if it has a test with at least one operator'
QUICK = (9000, 45)
THOROUGH = (300000, 780)
REQUIRED = ['programs', 'op_and', 'op_or', 'op_not', 'op_paren', 'not_after_op', 'not_not', 'not_paren', 'mixed_and_or',
            'atom_num', 'atom_len', 'close_lengths', 'atom_equal', 'atom_isodd', 'atom_isundefined', 'atom_boolean', 'val_true', 'val_false',
            'loop_0', 'loop_1', 'loop_many', 'loop_nested', 'ite_nested', 'loop_def', 'loop_bool', 'upper_ops']
ASSUMPTIONS = ['operands of \\equal are plain text after expansion, without leading or trailing blanks',
               'lengths compared are equal or differ by more than 0.01pt (0.0001pt if both are given in points)', 'at most two loops deep']

UN = {'pt': 72270000, 'cm': 2056234252, 'mm': 205623425, 'in': 5222915625, 'pc': 867240000, 'bp': 72540000}
LEN = [('1cm', '10mm', 0), ('1in', '72.27pt', 0), ('1pc', '12pt', 0), ('2.54cm', '1in', 0), ('3pt', '1mm', 1),
       ('1cm', '1in', -1), ('10pt', '1cm', -1), ('30pt', '1cm', 1), ('5mm', '14pt', 1), ('-2pt', '1pt', -1),
       ('-1cm', '-10mm', 0), ('0.5cm', '5mm', 0), ('.1in', '2mm', 1), ('12bp', '1pc', 1), ('\\da', '3pt', 0),
       ('\\da', '1cm', -1), ('2\\da', '6pt', 0), ('-\\da', '\\db', -1), ('\\db', '1.5\\da', -1), ('\\db', '1pt', 0)]
SIGNS = {-1: '<', 0: '=', 1: '>'}


class World(object):
    """The state the tests look at."""

    def __init__(self, s):
        self.cnt = {'ca': s.int(-3, 6), 'cb': s.int(0, 9)}
        self.boo = {'ba': s.bool(), 'bb': s.bool()}
        self.mac = {'na': str(s.int(-5, 9)), 'nb': str(s.int(0, 30))}
        self.txt = {'ta': s.choice(['ab', 'x y', 'w']), 'tb': s.choice(['ab', 'x y', 'w'])}
        self.defined = {'ta', 'tb', 'na', 'nb', 'textbf', 'ifthenelse'}


def preamble(w):
    out = r'\documentclass{article}\usepackage{ifthen}\newcounter{ca}\newcounter{cb}\newcounter{cl}\newcounter{cm}'
    out += r'\newboolean{ba}\newif\ifbb\newboolean{bl}\newcount\kq \kq=7 \newdimen\da \da=3pt \newdimen\db \db=1pt '
    out += ''.join('\\setcounter{%s}{%d}' % kv for kv in sorted(w.cnt.items()))
    out += '\\setboolean{ba}{%s}' % str(w.boo['ba']).lower() + ('\\bbtrue ' if w.boo['bb'] else '\\bbfalse ')
    out += ''.join('\\newcommand{\\%s}{%s}' % kv for kv in sorted(w.mac.items()) + sorted(w.txt.items()))
    return out + r'\begin{document}'


class Gen(object):
    def __init__(self, s, w):
        self.s, self.w = s, w
        self.n = 0
        self.tags = []

    def word(self):
        self.n += 1
        return 'w%dz' % self.n

    def sp(self):
        return self.s.choice(['', ' '])

    def num(self, v=None):
        """(source, value)"""
        s, w = self.s, self.w
        k = s.weighted([(4, 'lit'), (3, 'cnt'), (2, 'mac'), (1, 'neg'), (1, 'big'), (1, 'hex'), (1, 'oct'), (1, 'chr'), (1, 'sgn'), (1, 'reg')]) if v is None else 'lit'
        if k == 'lit':
            n = s.int(-4, 12) if v is None else v
            return str(n), n
        if k == 'hex':
            n = s.int(0, 300)
            return '"%X' % n, n
        if k == 'oct':
            n = s.int(0, 300)
            return "'%o" % n, n
        if k == 'chr':
            c = s.choice('aZ0*')
            return '`' + c, ord(c)
        if k == 'sgn':
            n = s.int(0, 9)
            a, v = s.choice([('- ', -1), ('--', 1), ('+', 1), ('- - ', 1), ('-+ ', -1)])
            return a + str(n), v * n
        if k == 'reg':
            return '\\kq ', 7
        if k == 'big':
            n = s.int(-99999, 999999)
            return str(n), n
        if k == 'cnt':
            c = s.choice(sorted(w.cnt))
            return '\\value{%s}' % c, w.cnt[c]
        m = s.choice(sorted(w.mac))
        if k == 'neg':
            c = s.choice(sorted(w.cnt))
            return '-\\value{%s}' % c, -w.cnt[c]
        return '\\' + m + ' ', int(w.mac[m])

    def atom(self):
        s, w = self.s, self.w
        k = s.weighted([(6, 'num'), (3, 'len'), (3, 'equal'), (2, 'isodd'), (2, 'isundefined'), (3, 'boolean')])
        self.tags.append('atom_' + k)
        if k == 'num':
            a, x = self.num()
            b, y = self.num(x if s.bool(1, 4) else None)
            r = s.choice('<=>')
            v = {'<': x < y, '=': x == y, '>': x > y}[r]
            return self.sp() + a + self.sp() + r + self.sp() + b + self.sp(), v
        if k == 'len':
            a, b, c = s.choice(LEN)
            if s.bool(1, 4):
                # lengths that are close together, but some scaled points apart
                n, d = s.int(1, 200 * 10000), s.choice([0, 1, 1, 2, 5, 40])
                a, b, c = '%d.%04dpt' % divmod(n, 10000), '%d.%04dpt' % divmod(n + d, 10000), -1 if d else 0
                self.tags.append('close_lengths')
            if s.bool():
                a, b, c = b, a, -c
            r = s.choice('<=>')
            f = lambda x: x + (' ' if x[-1].isalpha() and '\\' in x else self.sp())
            return '\\lengthtest{' + self.sp() + f(a) + r + self.sp() + f(b) + '}', SIGNS[c] == r
        if k == 'equal':
            def side():
                j = s.choice(['w', 'mac', 'num', 'mix'])
                if j == 'w':
                    t = s.choice(['ab', 'x y', 'w', '3'])
                    return t, t
                if j == 'mac':
                    m = s.choice(sorted(w.txt))
                    return '\\' + m, w.txt[m]
                if j == 'num':
                    c = s.choice(sorted(w.cnt))
                    return '\\arabic{%s}' % c, str(w.cnt[c])
                m = s.choice(sorted(w.txt))
                return 'a\\%s{}b' % m if False else 'a\\%s' % m, 'a' + w.txt[m]
            a, x = side()
            b, y = side() if s.bool() else (x, x)
            return '\\equal{%s}{%s}' % (a, b), x == y
        if k == 'isodd':
            a, x = self.num()
            return '\\isodd{%s}' % a, x % 2 == 1
        if k == 'isundefined':
            m = s.choice(['ta', 'na', 'textbf', 'undefxx', 'undefyy', 'ifthenelse', 'zz'])
            return '\\isundefined{\\%s}' % m, m not in w.defined
        if s.bool(1, 10):
            v = s.bool()
            return '\\boolean{%s}' % str(v).lower(), v
        b = s.choice(sorted(w.boo))
        return '\\boolean{%s}' % b, w.boo[b]

    def factor(self, depth):
        if depth and self.s.bool(2, 5):
            a, v = self.expr(depth - 1)
            self.tags.append('op_paren')
            return '\\(' + self.sp() + a + self.sp() + '\\)', v
        return self.atom()

    def term(self, depth, after=False):
        n = self.s.weighted([(6, 0), (4, 1), (1, 2), (1, 3)])
        a, v = self.factor(depth)
        if n:
            self.tags.append('op_not')
            if after:
                self.tags.append('not_after_op')
            if n > 1:
                self.tags.append('not_not')
            if a.startswith('\\('):
                self.tags.append('not_paren')
        for _ in range(n):
            up = self.s.bool(1, 8)
            if up:
                self.tags.append('upper_ops')
            a = ('\\NOT' if up else '\\not') + ' ' + a
            v = not v
        return a, v

    def expr(self, depth):
        a, v = self.term(depth)
        ops = set()
        for _ in range(self.s.weighted([(3, 0), (5, 1), (4, 2), (2, 3), (1, 5)])):
            op = self.s.choice(['and', 'or'])
            ops.add(op)
            b, x = self.term(depth, True)
            self.tags.append('op_' + op)
            a += self.sp() + '\\' + (op.upper() if self.s.bool(1, 8) else op) + ' ' + b
            v = (v and x) if op == 'and' else (v or x)
        if len(ops) == 2:
            self.tags.append('mixed_and_or')
        return a, v

    def test(self, depth=None):
        if depth is None:
            depth = self.s.weighted([(2, 0), (4, 1), (3, 2), (2, 3)])
        a, v = self.expr(depth)
        self.tags.append('val_true' if v else 'val_false')
        return a, v

    def ite(self, depth, live=True):
        """(source, text); changes self.w if live"""
        s = self.s
        a, v = self.test()
        if depth < 2:
            self.tags.append('ite_nested')
        t, tt = self.body(depth - 1, live and v)
        e, et = self.body(depth - 1, live and not v)
        return '\\ifthenelse{%s}{%s}{%s}' % (a, t, e), tt if v else et

    def body(self, depth, live):
        """statements of a branch"""
        s = self.s
        src, txt = '', ''
        for _ in range(s.int(1, 2)):
            k = s.weighted([(6, 'w'), (2 if depth else 0, 'ite'), (2, 'step'), (1, 'bool'), (1, 'def'), (1, 'empty'), (1, 'bold'), (1, 'group')])
            if k == 'w':
                w = self.word()
                src, txt = src + w, txt + w
            elif k == 'bold':
                w = self.word()
                src, txt = src + '\\textbf{%s}' % w, txt + w
            elif k == 'group':
                w = self.word()
                self.tags.append('group')
                src, txt = src + s.choice(['{%s}', '{\\bfseries %s}', '\\begingroup %s\\endgroup ', '\\bgroup %s\\egroup ']) % w, txt + w
            elif k == 'ite':
                a, b = self.ite(depth, live)
                src, txt = src + a, txt + b
            elif k == 'step':
                c = s.choice(sorted(self.w.cnt))
                n = s.int(-2, 3)
                src += '\\addtocounter{%s}{%d}' % (c, n)
                if live:
                    self.w.cnt[c] += n
            elif k == 'bool':
                b = s.choice(sorted(self.w.boo))
                v = s.bool()
                src += '\\setboolean{%s}{%s}' % (b, str(v).lower())
                if live:
                    self.w.boo[b] = v
            elif k == 'def':
                m = s.choice(sorted(self.w.txt))
                v = s.choice(['ab', 'x y', 'w'])
                src += '\\renewcommand{\\%s}{%s}' % (m, v)
                if live:
                    self.w.txt[m] = v
        return src, txt

    def loop(self, depth):
        """A loop of n iterations over a counter, a switch or a macro."""
        s = self.s
        n = s.weighted([(1, 0), (2, 1), (2, 2), (2, 3), (1, 4), (1, 5), (1, 6)])
        self.tags.append('loop_%s' % (n if n < 2 else 'many'))
        c = 'cl' if depth else 'cm'
        w = self.word()
        k = s.weighted([(4, 'cnt'), (2, 'bool'), (2, 'def')])
        if depth == 0:
            k = 'cnt'
        start = s.int(-3, 5)
        cv = '\\value{%s}' % c
        pre = '\\setcounter{%s}{%d}' % (c, start)
        inner, itxt = '', lambda i: ''
        if s.bool(1, 3) and depth:
            self.tags.append('loop_nested')
            inner, it = self.loop(depth - 1)
            itxt = lambda i: it
        elif s.bool(1, 2):
            m = s.int(start - 1, start + n)
            x, y = self.word(), self.word()
            inner = '\\ifthenelse{\\not \\( %s > %d \\) \\and %s=%s}{%s}{%s}' % (cv, m, cv, cv, x, y)
            itxt = lambda i: x if not start + i > m else y
        body = w + inner + (' \\arabic{%s}:' % c)
        text = ''.join(w + itxt(i) + ' %d:' % (start + i) for i in range(n))
        # the test: true exactly for the first n values
        if k == 'cnt':
            end = start + n
            pos = s.choice(['%s<%d' % (cv, end), '\\not %s=%d' % (cv, end), '%d>%s' % (end, cv),
                            '\\not \\( %s>%d \\or %s=%d \\)' % (cv, end, cv, end),
                            '%s<%d \\and \\not %s=%d' % (cv, end, cv, end), '\\( %s<%d \\)' % (cv, end),
                            '1=2 \\or %s<%d' % (cv, end), '\\not \\equal{\\arabic{%s}}{%d}' % (c, end)])
            step = '\\stepcounter{%s}' % c
            src = pre + '\\whiledo{%s}{%s%s}' % (pos, body, step)
        elif k == 'bool':
            self.tags.append('loop_bool')
            end = start + n
            pre += '\\setboolean{bl}{%s}' % ('true' if n else 'false')
            pos = s.choice(['\\boolean{bl}', '\\not \\not \\boolean{bl}', '1=1 \\and \\boolean{bl}'])
            step = '\\stepcounter{%s}\\ifthenelse{%s=%d}{\\setboolean{bl}{false}}{}' % (c, cv, end)
            src = pre + '\\whiledo{%s}{%s%s}' % (pos, body, step)
        else:
            self.tags.append('loop_def')
            end = start + n
            pre += '\\newcommand{\\lt}{}\\renewcommand{\\lt}{%s}' % ('go' if n else 'stop')
            if s.bool():
                pre = pre.replace('\\renewcommand{\\lt}', '\\def\\lt')
                stop = '\\def\\lt{stop}'
            else:
                stop = '\\renewcommand{\\lt}{stop}'
            pos = s.choice(['\\equal{\\lt}{go}', '\\not \\equal{\\lt}{stop}', '\\equal{go}{\\lt} \\or 3<2'])
            step = '\\stepcounter{%s}\\ifthenelse{%s=%d}{%s}{}' % (c, cv, end, stop)
            src = pre + '\\whiledo{%s}{%s%s}' % (pos, body, step)
            pre0 = ''
        if depth:
            src += ' \\arabic{%s};' % c
            text += ' %d;' % end
        return src, text


def gen(src, tier):
    w = World(src)
    g = Gen(src, w)
    head = preamble(w)
    parts, text = [], []
    used = False
    for _ in range(src.weighted([(4, 1), (3, 2), (1, 4)])):
        if src.bool(1, 4) and not used:
            a, b = g.loop(1)
            used = True
        else:
            a, b = g.ite(2)
        parts.append(a)
        text.append(b)
    tail = ' \\arabic{ca},\\arabic{cb}.'
    return {'src': head + ' '.join(parts) + tail + r'\end{document}',
            'text': ' '.join(text) + ' %d,%d.' % (w.cnt['ca'], w.cnt['cb']), 'tags': sorted(set(g.tags))}


def corpus(tier):
    """Every shape of up to three operands over all truth values."""
    T, Fs = '1<2', '2<1'
    cases = []
    nots = ['', '\\not ', '\\not \\not ']

    def ev(xs, ops):
        v = xs[0]
        for o, x in zip(ops, xs[1:]):
            v = (v and x) if o == 'and' else (v or x)
        return v
    for n in (1, 2, 3):
        for vals in itertools.product([True, False], repeat=n):
            for ns in itertools.product([0, 1, 2] if n < 3 else [0, 1], repeat=n):
                for ops in itertools.product(['and', 'or'], repeat=n - 1):
                    lits = [nots[k] + (T if v else Fs) for k, v in zip(ns, vals)]
                    vs = [v ^ bool(k % 2) for k, v in zip(ns, vals)]
                    flat = lits[0] + ''.join(' \\%s %s' % (o, x) for o, x in zip(ops, lits[1:]))
                    forms = [(flat, ev(vs, ops))]
                    if n == 3:
                        forms.append(('%s \\%s \\( %s \\%s %s \\)' % (lits[0], ops[0], lits[1], ops[1], lits[2]),
                                      ev([vs[0], ev(vs[1:], ops[1:])], ops[:1])))
                        forms.append(('\\not \\( %s \\%s %s \\) \\%s %s' % (lits[0], ops[0], lits[1], ops[1], lits[2]),
                                      ev([not ev(vs[:2], ops[:1]), vs[2]], ops[1:])))
                        forms.append(('%s \\%s \\not \\( %s \\%s %s \\)' % (lits[0], ops[0], lits[1], ops[1], lits[2]),
                                      ev([vs[0], not ev(vs[1:], ops[1:])], ops[:1])))
                    for f, v in forms:
                        cases.append((f, v))
    out = []
    for i in range(0, len(cases), 12):
        src = r'\documentclass{article}\usepackage{ifthen}\begin{document}'
        txt = ''
        for j, (f, v) in enumerate(cases[i:i + 12]):
            src += '\\ifthenelse{%s}{T%d.}{F%d.}' % (f, j, j)
            txt += '%s%d.' % ('T' if v else 'F', j)
        out.append({'src': src + r'\end{document}', 'text': txt, 'tags': ['op_and', 'op_or']})
    return out


def show(case):
    return case['src']


def run(case, obs):
    from plasTeX.TeX import TeX
    for t in case['tags']:
        obs.hit(t)
    obs.hit('programs')
    if any(t.startswith('op_') for t in case['tags']):
        obs.nontrivial = True
    tex = TeX()
    tex.input(case['src'])
    doc = tex.parse()
    body = doc.getElementsByTagName('document')[0]
    got = ' '.join(body.textContent.split())
    want = ' '.join(case['text'].split())
    obs.seen('texts', want)
    if got.replace(' ', '') != want.replace(' ', ''):
        return 'text is %r, should be %r' % (got, want)
    return None
