r"""C11: verbatim text and mathematics pass through character for character.

Documents with verbatim material and formulas in many places are generated; the text of every verbatim node must be the characters
that were written, what follows must be read normally again, and the reconstructed source of each formula must tokenize to the
tokens that were written (with user macros expanded), both in the tree and in the rendered page.
"""
import re
from html.parser import HTMLParser

ID = 'C11'
RULE = 'a document counts if it has a verbatim node or a formula of at least three tokens'
QUICK = (7000, 35)
THOROUGH = (150000, 780)
REQUIRED = ['documents', 'verbatim', 'verbatim*', 'verb', 'verb*', 'partial_end', 'caret', 'blanks', 'comment_like', 'brace', 'nonascii',
            'endverbatim', 'in_item', 'in_group', 'in_arg', 'followed', 'special_delim', 'formulas', 'math', 'displaymath', 'equation', 'dollars',
            'paren', 'bracket', 'script', 'frac', 'sqrt', 'left', 'array', 'textbox', 'macro', 'ams', 'in_title', 'in_caption', 'in_footnote',
            'in_cell', 'rendered', 'nested_math', 'envs', 'xhtml']
ASSUMPTIONS = ['\\verb{...} reads to the matching brace (plasTeX\'s extension)', '\\left< stands for \\left\\langle and \\( for $ within formulas',
               'amounts of primitive skips (\\hskip, \\kern) are numbers, not tokens']

SPECIAL = '\\{}$&#^_%~'


def esc(t):
    return t


def cell(a, b):
    """Characters that are substituted don't occur in cells (known finding: they are substituted there)"""
    t = str.maketrans("'`-", '78+')
    return a.translate(t), b.translate(t)


class Gen:
    def __init__(self, s, ams):
        self.s, self.ams = s, ams
        self.marks, self.verbs, self.forms = [], [], []
        self.n = 100
        self.macros = {}

    # ---- verbatim

    def body(self, end, inline=False, stop=''):
        s = self.s
        out = []
        for _ in range(s.weighted([(1, 0), (3, s.int(1, 3)), (4, s.int(3, 12)), (1, s.int(12, 40))])):
            k = s.weighted([(5, 'chars'), (3, 'special'), (2, 'blank'), (1, 'lig'), (1, 'caret'), (1, 'cmd'), (2, 'end'), (1, 'uni'), (1, 'brace')])
            if k == 'chars':
                t = ''.join(s.choice('abcxyzEND0189.,:;!?()[]<>|"\'`@+-*/=') for _ in range(s.int(1, 5)))
            elif k == 'special':
                t = s.choice(SPECIAL)
                if t == '%':
                    self.marks.append('comment_like')
            elif k == 'blank':
                t = s.choice([' ', '  ', '    ', '\t', ' \t '] + ([] if inline else ['\n', '\n\n', '\n\n\n', '\n  ', '  \n', '\n ']))
                self.marks.append('blanks')
            elif k == 'lig':
                t = s.choice(['--', '---', '``', "''", '?`', '!`', '<<', '>>', 'fi', '"`', "\"'"])
            elif k == 'caret':
                t = s.choice(['^^41', '^^M', '^^', '^^^', '^^5c', '^^?', '^^@', '^^7b'])
                self.marks.append('caret')
            elif k == 'cmd':
                t = s.choice(['\\item', '\\section{x}', '\\verb|x|', '\\begin{verbatim}', '\\begin{foo}', '\\par', '\\\\', '$x^2$', '%c', '\\ ',
                              '\\relax ', '#1', '\\end{document}', '\\end', '\\iffalse', '\\fi'])
            elif k == 'end':
                t = s.choice(['\\end{verbati', '\\end {verbatim}', '\\end{ verbatim}', '\\end{verbatim ', '\\\\end{verbati', '\\end', 'end{verbatim}',
                              '\\End{verbatim}', '\\end{verbatims}', '\\end{verbatim*}', '\\end{verbatim}', '\\endverbatim', '\\endverbatim*',
                              '\\end{\\end{', '\\end[verbatim]', '\\end{verbatim\\end{'])
                if t.startswith('\\endverb'):
                    self.marks.append('endverbatim')
                else:
                    self.marks.append('partial_end')
            elif k == 'uni':
                t = s.choice(['\xe9', '\u4e2d', '\u2014', '\xa0', '\U0001d400'])
                self.marks.append('nonascii')
            else:
                t = s.choice(['{', '}', '{{', '}}', '{a}'])
                self.marks.append('brace')
            out.append(t)
        t = ''.join(out)
        if inline:
            t = t.replace(stop, '').replace('\n', '')
            if not t:
                t = 'v'
            return t
        while end in t:
            t = t.replace(end, end[:-1])
        # (the end must not begin in the text)
        for i in range(1, len(end)):
            if t.endswith(end[:i]) and end in t + end and (t + end).index(end) != len(t):
                t += '.'
        return t

    def verbatim(self):
        s = self.s
        if s.bool(1, 2):
            env = s.choice(['verbatim', 'verbatim', 'verbatim*'])
            b = s.choice(['\n', '\n', '', ' ']) + self.body('\\end{%s}' % env)
            if s.bool(3, 4):
                b += '\n'
            self.verbs.append([env, b])
            self.marks.append(env)
            return '\\begin{%s}%s\\end{%s}' % (env, b, env)
        star = s.bool(1, 4)
        d = s.choice('|||!+-=/"\'`@?<>[];:,.()' + '#$%^&_~}\\123')
        if d in SPECIAL:
            self.marks.append('special_delim')
        b = self.body('', True, d)
        self.verbs.append(['verb', b])
        self.marks.append('verb*' if star else 'verb')
        return '\\verb%s%s%s%s' % ('*' if star else '', d, b, d)

    # ---- formulas: pairs of what is written and what it means

    def atom(self):
        s = self.s
        k = s.weighted([(6, 'sym'), (2, 'cmd'), (1, 'rel')])
        if k == 'sym':
            t = s.choice(list('abcxyzABZ0123456789+-*/=,.;:!?()|[]') + ["'", "''", '<', '>', '@', '"', '`'])
        elif k == 'cmd':
            t = s.choice(['\\alpha', '\\beta', '\\Gamma', '\\infty', '\\ldots', '\\cdots', '\\partial', '\\nabla', '\\forall', '\\emptyset', '\\{',
                          '\\}', '\\|', '\\,', '\\;', '\\!', '\\:', '\\quad', '\\ell', '\\langle', '\\rangle', '\\sin', '\\log', '\\prime',
                          '\\%', '\\&', '\\#', '\\$', '\\_', '\\displaystyle', '\\textstyle', '\\lbrace', '~', '\\qquad', '\\lim', '\\max'])
        else:
            t = s.choice(['\\le', '\\ge', '\\ne', '\\in', '\\subset', '\\to', '\\times', '\\cdot', '\\pm', '\\cap', '\\mid', '\\not=', '\\equiv',
                          '\\sim', '\\mapsto', '\\circ', '\\oplus'])
        return t, t

    def braced(self, depth, low=1):
        a, b = self.formula(depth, low)
        return '{%s}' % a, '{%s}' % b

    def arg(self, depth):
        s = self.s
        if s.bool(3, 4) or depth < 0:
            return self.braced(depth, 0 if s.bool(1, 8) else 1)
        t = s.choice(['1', '2', 'x', 'y', 'n', '\\alpha', '\\beta', '\\infty'])
        return s.choice([' ', '']) + t if t[0] != '\\' else t, t

    def script(self, depth):
        s = self.s
        self.marks.append('script')
        if s.bool(1, 6):
            t = s.choice(['\\frac12', '\\mathrm{T}', '\\mathbf x', '\\prime', '\\sqrt2', '*', '+'])
            return t, t
        return self.arg(depth)

    def formula(self, depth, low=1, high=4):
        s = self.s
        src, want = [], []
        for _ in range(s.int(low, high)):
            a, b = self.term(depth)
            src.append(a)
            want.append(b)
        out = ''
        for i, a in enumerate(src):
            if i:
                sep = s.weighted([(5, ' '), (2, ''), (1, '\n'), (1, '%x}$\n'), (1, '  ')])
                if not sep and re.search(r'\\[a-zA-Z]+$', out) and re.match('[a-zA-Z]', a) or out.endswith('\\'):
                    sep = ' '
                # (a bracket would be an optional argument, a star a part of the command before it)
                out += sep
            out += a
        return out, ' '.join(want)

    def term(self, depth):
        s = self.s
        w = [(6, 'atom')]
        if depth > 0:
            w += [(3, 'script'), (2, 'frac'), (2, 'sqrt'), (2, 'left'), (1, 'acc'), (2, 'op'), (1, 'group'), (1, 'array'), (2, 'text'),
                  (1, 'font'), (1, 'over'), (1, 'big'), (2, 'macro'), (1, 'misc')]
            if self.ams:
                w += [(3, 'ams')]
        k = s.weighted(w)
        if k == 'atom':
            return self.atom()
        if k == 'script':
            base = s.choice(['x', 'a', ')', '{}', '\\alpha', 'f', '\\sum', '\\int', '\\prod', ''])
            if base == '':
                a, b = self.braced(depth - 1)
            else:
                a = b = base
            for op in s.choice(['^', '_', '_^', '^_', "'_", "'", "''^"]):
                if op == "'":
                    a += "'"
                    b += "'"
                else:
                    c, d = self.script(depth - 1)
                    a += s.choice(['', '', ' ']) + op + c
                    b += op + d
            return a, b
        if k == 'frac':
            self.marks.append('frac')
            c = s.choice(['frac', 'frac', 'stackrel'] + (['dfrac', 'tfrac', 'binom', 'overset', 'underset'] if self.ams else []))
            x, y = self.arg(depth - 1), self.arg(depth - 1)
            if re.match('[a-zA-Z]', x[0]):
                x = (' ' + x[0], x[1])
            if x[1] in ('\\alpha', '\\beta', '\\infty') and re.match('[a-zA-Z]', y[0]):
                y = (' ' + y[0], y[1])
            return '\\%s%s%s' % (c, x[0], y[0]), '\\%s %s %s' % (c, x[1], y[1])
        if k == 'sqrt':
            self.marks.append('sqrt')
            a, b = self.braced(depth - 1, 0)
            o = s.choice(['', '', '[3]', '[n+1]', '[{\\frac{a}{b}}]', '[ x_{i} ]'])
            return '\\sqrt' + o + a, '\\sqrt' + o + b
        if k == 'left':
            self.marks.append('left')
            ds = ['(', ')', '[', ']', '|', '.', '/', '\\{', '\\}', '\\|', '\\langle', '\\rangle', '\\lfloor', '\\rceil', '\\backslash', '\\uparrow']
            l, r = s.choice(ds), s.choice(ds)
            a, b = self.formula(depth - 1)
            if s.bool(1, 6):
                a, b = a + ' \\middle| ' + 'x', b + ' \\middle| x'
            return '\\left%s %s \\right%s ' % (l, a, r), '\\left%s %s \\right%s ' % (l, b, r)
        if k == 'acc':
            c = s.choice(['hat', 'bar', 'vec', 'tilde', 'dot', 'ddot', 'overline', 'underline', 'widehat', 'overbrace', 'underbrace', 'acute',
                          'check', 'phantom', 'vphantom', 'mathop', 'mathbin', 'mathrel'])
            a, b = self.braced(depth - 1)
            return '\\%s%s' % (c, a), '\\%s%s' % (c, b)
        if k == 'op':
            c = s.choice(['sum', 'prod', 'int', 'lim', 'bigcup', 'oint', 'sup'])
            lim = s.choice(['', '', '\\limits', '\\nolimits'])
            a = b = '\\%s%s' % (c, lim)
            for op in s.choice(['_', '_^', '^_', '^']):
                x, y = self.script(depth - 1)
                a += op + x
                b += op + y
            return a, b
        if k == 'group':
            return self.braced(depth - 1, 0)
        if k == 'font':
            c = s.choice(['mathrm', 'mathbf', 'mathit', 'mathcal', 'mathsf', 'mathtt'] + (['mathbb', 'mathfrak', 'operatorname', 'boldsymbol']
                                                                                         if self.ams else []))
            if s.bool(1, 4):
                d = s.choice(['rm', 'bf', 'it', 'cal', 'displaystyle'])
                a, b = self.formula(depth - 1)
                return '{\\%s %s}' % (d, a), '{\\%s %s}' % (d, b)
            a, b = self.braced(depth - 1)
            return '\\%s%s' % (c, a), '\\%s%s' % (c, b)
        if k == 'over':
            c = s.choice(['over', 'atop', 'choose'])
            x, y = self.formula(depth - 1), self.formula(depth - 1)
            return '{%s \\%s %s}' % (x[0], c, y[0]), '{%s \\%s %s}' % (x[1], c, y[1])
        if k == 'big':
            c = s.choice(['big', 'Big', 'bigg', 'Bigg', 'bigl', 'Bigr', 'bigm'])
            d = s.choice(['(', ')', '|', '[', '\\{', '\\langle ', '\\|', '/'])
            return '\\%s%s' % (c, d), '\\%s%s' % (c, d)
        if k == 'misc':
            t = s.choice(['\\hspace{1em}', '\\quad', '\\ ', 'a~b', '\\mathchoice{a}{b}{c}{d}', '\\pmod{n}', '\\bmod', '\\colon', '\\ldots',
                          '\\mathop{\\rm ad}', '\\rule{1pt}{2pt}', '\\textstyle', '{}', '{{}}', '\\nonumber', '\\left\\lvert x \\right\\rvert'])
            return t, t
        if k == 'array':
            return self.array(depth)
        if k == 'text':
            return self.text(depth)
        if k == 'ams':
            self.marks.append('ams')
            c = s.choice(['pmatrix', 'bmatrix', 'vmatrix', 'matrix', 'cases', 'aligned', 'smallmatrix', 'gathered', 'substack'])
            if c == 'substack':
                x, y = self.formula(depth - 1), self.formula(depth - 1)
                if re.match(r'\s*(%.*\n)?\s*[\[*]', y[0]):
                    y = ('y', 'y')
                return '\\sum_{\\substack{%s\\\\ %s}}' % (x[0], y[0]), '\\sum_{\\substack{%s \\\\ %s}}' % (x[1], y[1])
            return self.rows('\\begin{%s}' % c, '\\end{%s}' % c, 1 if c == 'gathered' else s.int(1, 3), depth)
        self.marks.append('macro')
        return self.macro(depth)

    def array(self, depth):
        s = self.s
        self.marks.append('array')
        n = s.int(1, 3)
        spec = s.choice(['c' * n, '|'.join('l' * n), '*{%d}{r}' % n, 'l' * (n - 1) + '@{\\quad}c', '|' + 'c' * n + '|'])
        return self.rows('\\begin{array}%s{%s}' % (s.choice(['', '', '[t]']), spec), '\\end{array}', n, depth)

    def rows(self, begin, end, n, depth):
        s = self.s
        src, want = [begin], [begin]
        m = s.int(1, 3)
        for i in range(m):
            if 'array' in begin and s.bool(1, 5):
                src.append('\\hline ')
                want.append('\\hline')
            cells = [cell(*self.formula(depth - 1, 0 if s.bool(1, 6) else 1, 2)) for _ in range(n)]
            if n > 1 and s.bool(1, 6):
                t = s.choice(['lt b', 'gt ;', 'amp; x', 'quot;', 'copy'])
                cells[-1] = (t, t)
                self.marks.append('entity')
            # (brackets and stars would belong to the end of the row before)
            if i and re.match(r'\s*(%.*\n)?\s*[\[*]', cells[0][0]):
                cells[0] = ('x', 'x')
            src.append(s.choice([' & ', '&', '&\n']).join(c[0] for c in cells))
            want.append(' & '.join(c[1] for c in cells))
            if i < m - 1 or s.bool(1, 4):
                e = s.weighted([(6, '\\\\'), (1, '\\\\[2pt]'), (1, '\\\\*')])
                src.append(e + s.choice([' ', '\n']))
                want.append(e)
        return s.choice([' ', '\n']).join([src[0], ''.join(src[1:])]) + end, ' '.join(want) + ' ' + end

    def text(self, depth):
        s = self.s
        self.marks.append('textbox')
        c = s.choice(['mbox', 'mbox', 'textrm', 'textbf', 'hbox', 'text', 'fbox', 'makebox[2cm]', 'parbox{2cm}'])
        src, want = [], []
        for _ in range(s.int(1, 3)):
            k = s.weighted([(5, 'word'), (2, 'math'), (1, 'cmd'), (1, 'sym')])
            if k == 'word':
                t = s.choice(['if', 'and ', ' for all', '``q\'\'', 'a--b', "it's", 'x', ' ', 'a < b', '\\&', '\\%', '\\{x\\}', 'a\\ b'])
                if s.bool(1, 5):
                    # the name of an accent is a letter
                    self.marks.append('letter_accent')
                    t = s.choice(['', 'gar', 'x ']) + '\\%s %s' % (s.choice('cbduvHk'), s.choice(['c', 'o', 'a', 'S', 'con', 'z k']))
                src.append(t)
                want.append(t)
            elif k == 'math':
                self.marks.append('nested_math')
                a, b = self.formula(depth - 2 if depth > 2 else 0)
                src.append(s.choice(['$%s$', '\\(%s\\)']) % a)
                want.append('$%s$' % b)
            elif k == 'cmd':
                f = s.choice(['emph', 'textbf', 'textit', 'mbox'])
                src.append('\\%s{a $x$}' % f)
                want.append('\\%s{a $x$}' % f)
            else:
                t = s.choice(['{\\bf b}', '{\\itshape c}', '\\ldots', '\\quad', '{}'])
                src.append(t + ' ')
                want.append(t)
        return '\\%s{%s}' % (c, ' '.join(src)), '\\%s{%s}' % (c, ' '.join(want))

    def macro(self, depth):
        s = self.s
        k = s.choice(['R', 'norm', 'pair', 'opt', 'eq', 'wrap', 'sym', 'env'])
        if k == 'R':
            return '\\R', '\\mathrm{R}'
        if k == 'sym':
            return '\\sym', 'x_{i}^2'
        if k == 'eq':
            return '\\eqq ', '\\ =\\ '
        if k == 'norm':
            a, b = self.formula(depth - 1)
            return '\\norm{%s}' % a, '\\left\\| %s \\right\\|_2' % b
        if k == 'wrap':
            a, b = self.formula(depth - 1)
            return '\\wrap{%s}' % a, '{\\mbox{w $%s$}}' % b
        if k == 'env':
            x, y = cell(*self.formula(depth - 1)), cell(*self.formula(depth - 1))
            if re.match(r'\s*(%.*\n)?\s*[\[*]', y[0]):
                y = ('y', 'y')
            return '\\vect{%s}{%s}' % (x[0], y[0]), '\\left(\\begin{array}{c} %s \\\\ %s \\end{array}\\right)' % (x[1], y[1])
        x, y = self.arg(depth - 1), self.arg(depth - 1)
        un = lambda t: t[1:-1] if t[0] == '{' else t
        if re.match('[a-zA-Z]', x[0]):
            x = (' ' + x[0], x[1])
        if k == 'pair':
            if x[1] in ('\\alpha', '\\beta', '\\infty') and re.match('[a-zA-Z]', y[0]):
                y = (' ' + y[0], y[1])
            return '\\pair%s%s' % (x[0], y[0]), '(%s \\mid %s)' % (un(x[1]), un(y[1]))
        o = s.choice([None, 'm', 'k+1', '{[}'])
        return '\\opt%s%s' % ('[%s]' % o if o else '', x[0]), '\\sum_{i=1}^{%s} %s' % ((o or 'n').strip('{}'), un(x[1]))

    def math(self, display):
        s = self.s
        self.n += 1
        tag = str(self.n)
        a, b = self.formula(s.int(0, 4), 1, 5)
        if not display:
            env = s.choice(['dollar', 'paren', 'math'])
            f = {'dollar': '$%s$', 'paren': '\\(%s\\)', 'math': '\\begin{math}%s\\end{math}'}[env]
            node, wrap = 'math', '%s'
            self.marks.append('dollars' if env == 'dollar' else 'paren')
        else:
            envs = ['bracket', 'dd', 'displaymath', 'equation']
            if self.ams:
                envs += ['equation*', 'align*', 'gather*']
            env = s.choice(envs)
            f = {'bracket': '\\[%s\\]', 'dd': '$$%s$$'}.get(env, '\\begin{%s}%%s\\end{%s}' % (env, env))
            node = 'displaymath' if env in ('bracket', 'dd') else env
            if env == 'bracket':
                self.marks.append('bracket')
            wrap = '%s' if node == 'displaymath' else '\\begin{%s}%%s\\end{%s}' % (env, env)
            if env == 'equation*':
                a, b = cell(a, b)
            if env in ('align*', 'gather*'):
                self.marks.append('envs')
                a, b = self.rows('', '', 1 if env == 'gather*' else 2, s.int(1, 3))
            if env in ('equation', 'equation*') and s.bool(1, 3):
                l = '\\label{eq_%s}' % tag
                a, b = a + l, b + l
        self.forms.append([tag, node, wrap % (tag + ' ' + b)])
        return f % (tag + s.choice([' ', '\n', '\\relax '][:2]) + a)

    # ---- documents

    def inline(self):
        s = self.s
        k = s.weighted([(3, 'math'), (2, 'word')])
        return self.math(False) if k == 'math' else 'word'

    def piece(self):
        s = self.s
        k = s.weighted([(5, 'verb'), (5, 'display'), (4, 'inline'), (2, 'arg'), (2, 'item'), (1, 'cell'), (1, 'title'), (1, 'caption'),
                        (1, 'footnote'), (1, 'group'), (1, 'term')])
        if k == 'verb':
            return self.verbatim()
        if k == 'display':
            return self.math(True)
        if k == 'inline':
            return self.math(False)
        if k == 'arg':
            self.marks.append('in_arg')
            return '\\%s{a %s b}' % (s.choice(['textbf', 'emph', 'mbox', 'dup', 'fbox']), self.math(False))
        if k == 'item':
            self.marks.append('in_item')
            e = s.choice(['itemize', 'enumerate', 'quote', 'center'])
            it = '\\item ' if e in ('itemize', 'enumerate') else ''
            return '\\begin{%s}\n%s%s %s\n%s%s\\end{%s}' % (e, it, 'w', s.choice([self.verbatim, lambda: self.math(True)])(), it,
                                                          self.math(False), e)
        if k == 'term':
            return '\\begin{description}\\item[{%s}] %s\\end{description}' % (self.math(False), self.math(False))
        if k == 'cell':
            self.marks.append('in_cell')
            return '\\begin{tabular}{ll} %s & a \\\\ \\multicolumn{2}{c}{%s} \\end{tabular}' % (self.math(False), self.math(False))
        if k == 'title':
            self.marks.append('in_title')
            return '\\section{a %s b}' % self.math(False)
        if k == 'caption':
            self.marks.append('in_caption')
            return '\\begin{figure}\\caption{a %s b}\\end{figure}' % self.math(False)
        if k == 'footnote':
            self.marks.append('in_footnote')
            return '\\footnote{a %s b}' % self.math(s.bool(1, 4))
        self.marks.append('in_group')
        return '{\\bfseries %s %s}' % (s.choice([self.verbatim, lambda: self.math(False)])(), self.math(False))


MACROS = (r'\newcommand\R{\mathrm{R}}\newcommand\norm[1]{\left\| #1 \right\|_2}\newcommand\pair[2]{(#1 \mid #2)}'
          r'\newcommand\opt[2][n]{\sum_{i=1}^{#1} #2}\newcommand\eqq{\ =\ }\def\sym{x_{i}^2}\newcommand\wrap[1]{{\mbox{w $#1$}}}'
          r'\newcommand\vect[2]{\left(\begin{array}{c} #1 \\ #2 \end{array}\right)}\newcommand\dup[1]{\textbf{#1}}')


def gen(s, tier):
    ams = s.bool(1, 2)
    g = Gen(s, ams)
    out = []
    k = 0
    for _ in range(s.weighted([(2, 1), (4, 2), (3, 4), (1, 8)])):
        p = g.piece()
        if s.bool(1, 2):
            g.marks.append('followed')
            k += 1
            p += s.choice([' ', '', '\n']) + '{\\textbf{P%d--}}%% $ {\n' % k
        out.append(p)
    sep = s.choice(['\n\n', '\n', ' '])
    pre = '\\documentclass{article}\n' + ('\\usepackage{amsmath,amssymb}\n' if ams else '') + MACROS + '\n\\begin{document}\n'
    r = s.weighted([(30, None), (2, 'HTML5'), (1, 'XHTML')])
    return {'src': pre + 'first\n\n' + sep.join(out) + '\n\nlast\n\\end{document}\n', 'verbs': g.verbs, 'forms': g.forms, 'probes': k,
            'marks': g.marks, 'render': r}


def tokens(t):
    out = []
    for x in re.findall(r'\\[a-zA-Z]+|\\(?:.|$)|\S', t, re.S):
        out.append('$' if x in ('\\(', '\\)') else '\\ ' if re.match(r'\\(\s|$)', x) else x)
    return out


def strip(t, node):
    """Formula without the delimiters around it"""
    t = t.strip()
    for a, b in [('$$', '$$'), ('$', '$'), ('\\(', '\\)'), ('\\[', '\\]'), ('\\begin{math}', '\\end{math}'),
                 ('\\begin{displaymath}', '\\end{displaymath}')]:
        if t.startswith(a) and t.endswith(b) and len(t) >= len(a) + len(b):
            return t[len(a):-len(b)]
    return t


MATH = ['math', 'displaymath', 'equation', 'equation*', 'align*', 'gather*']


def check_formulas(case, got, what):
    """got: list of (node name, source)"""
    found = {}
    for name, src in got:
        t = tokens(strip(src, name))
        tag = ''.join(t)
        m = re.match(r'(?:\\begin\{[a-z*]+\})?(\d\d\d)', tag)
        if not m:
            return '%s: formula %r was not written' % (what, src)
        found.setdefault(m.group(1), []).append((name, t))
    for tag, node, want in case['forms']:
        g = found.pop(tag, [])
        if not g:
            return '%s: formula %s is missing' % (what, tag)
        for name, t in g:
            if node == 'displaymath' and name == 'displaymath' or name is None or name == node:
                pass
            else:
                return '%s: formula %s is a %s instead of a %s' % (what, tag, name, node)
            w = tokens(strip(want, node))
            if [x for x in w if x != '\\ '] != [x for x in t if x != '\\ ']:
                for i in range(len(w) + 1):
                    if w[i:i + 1] != t[i:i + 1]:
                        break
                return '%s: formula %s continues with %s instead of %s after %s' % (what, tag, ''.join(t[i:i + 12]), ''.join(w[i:i + 12]),
                                                                                    ''.join(w[max(0, i - 8):i]))
    if found:
        return '%s: formulas %s were not written' % (what, sorted(found))
    return None


def order(node, out):
    """Nodes in the order of the text, not those in formulas"""
    at = getattr(node, 'attributes', None)
    if at:
        for k, v in at.items():
            if k != 'self' and getattr(v, 'nodeType', None) is not None and not isinstance(v, str):
                order(v, out)
    for c in node.childNodes:
        if c.nodeType == 3:
            continue
        if c.nodeName in MATH:
            out.append(c)
            continue
        if c.nodeName in ('verb', 'verbatim', 'verbatim*'):
            out.append(c)
            continue
        if c.nodeName == 'textbf':
            out.append(c)
        order(c, out)


def run(case, obs):
    from plasTeX.TeX import TeX
    tex = TeX()
    tex.input(case['src'])
    doc = tex.parse()
    obs.hit('documents')
    for m in case['marks']:
        obs.hit(m)
    nodes = []
    order(doc, nodes)
    # verbatim material
    verbs = [n for n in nodes if n.nodeName in ('verb', 'verbatim', 'verbatim*')]
    got = [[n.nodeName, str(n.textContent)] for n in verbs]
    if got != case['verbs']:
        for i in range(max(len(got), len(case['verbs']))):
            if got[i:i + 1] != case['verbs'][i:i + 1]:
                return 'verbatim text %d is %r instead of %r' % (i + 1, got[i:i + 1], case['verbs'][i:i + 1])
    for n in verbs:
        obs.hit('verbatim_chars', len(str(n.textContent)))
        obs.nontrivial = True
        # the characters do not depend on how the tree is read
        if any(c.nodeType != 3 for c in n.childNodes):
            return 'verbatim node %r has a child %r' % (str(n.textContent)[:40], [c.nodeName for c in n.childNodes])
    probes = [str(n.textContent).strip() for n in nodes if n.nodeName == 'textbf']
    probes = [p for p in probes if re.fullmatch(r'P\d+\W+', p)]
    if probes != ['P%d\u2013' % (i + 1) for i in range(case['probes'])]:
        return 'the text after is %s instead of %d normal pieces' % (probes, case['probes'])
    # formulas
    maths = [n for n in nodes if n.nodeName in MATH]
    m = check_formulas(case, [(n.nodeName, n.source) for n in maths], 'source')
    if m:
        return m
    lt = lambda t: t
    for n in maths:
        obs.hit('formulas')
        if n.nodeName in ('math', 'displaymath', 'equation'):
            obs.hit(n.nodeName)
        if len(tokens(n.source)) > 5:
            obs.nontrivial = True
        obs.seen('formula_heads', ''.join(tokens(n.source)[4:8]))
    if case['render']:
        return rendered(case, obs)
    return None


class Page(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.text, self.pre, self.depth = [], [], 0
        self.imgs = []

    def handle_starttag(self, tag, attrs):
        if tag == 'img':
            self.imgs.append(dict(attrs).get('alt') or '')
        if tag in ('pre', 'code', 'tt') or self.depth and tag not in ('img', 'br', 'hr', 'meta', 'link', 'input'):
            if self.depth == 0:
                self.pre.append('')
            self.depth += 1

    def handle_endtag(self, tag):
        if self.depth and tag not in ('img', 'br', 'hr', 'meta', 'link', 'input'):
            self.depth -= 1

    def handle_data(self, data):
        self.text.append(data)
        if self.depth:
            self.pre[-1] += data


def rendered(case, obs):
    from mon import render
    doc, files = render.render(case['src'], case['render'], 'minimal' if case['render'] == 'HTML5' else 'default',
                               [('files', 'split-level', -10), ('files', 'filename', 'index')])
    obs.hit('rendered')
    page = Page()
    page.feed(files['index.html'])
    page.close()
    text = ''.join(page.text)
    if case['render'] == 'HTML5':
        lt = [[a, b, c.replace('<', '\\lt ').replace('>', '\\gt ')] for a, b, c in case['forms']]
        got = []
        for a, b in [('\\\\\\(', '\\\\\\)'), ('\\\\\\[', '\\\\\\]')]:
            pass
        got = payloads(text, {t for t, n, w in case['forms']})
        m = check_formulas(dict(case, forms=lt), [(None, g) for g in got], 'page')
        if m:
            return m
    else:
        obs.hit('xhtml')
    pos = 0
    flat = text
    for kind, body in case['verbs']:
        if not body.strip():
            continue
        t = body.strip('\n') if kind != 'verb' else body
        # (blanks at the ends of lines may be trimmed by the templates)
        if t.strip() not in flat:
            return 'page: verbatim text %r is missing' % t
    return None


def payloads(text, tags):
    """Formulas of a page: outermost delimited pieces that begin with one of the numbers"""
    out = []
    i = 0
    delims = [('\\(', '\\)'), ('\\[', '\\]')] + [('\\begin{%s}' % e, '\\end{%s}' % e) for e in ('equation', 'equation*', 'align*', 'gather*')]
    while i < len(text):
        for a, b in delims:
            if text.startswith(a, i) and text[i + len(a):].lstrip()[:3] in tags:
                j = match(text, i + len(a), a, b)
                if j is None:
                    continue
                out.append(text[i:j])
                i = j
                break
        else:
            i += 1
    return out


def match(text, i, a, b):
    depth = 1
    while i < len(text):
        if text.startswith(b, i) and text[i - 1] != '\\':
            depth -= 1
            i += len(b)
            if depth == 0:
                return i
        elif text.startswith(a, i) and text[i - 1] != '\\':
            depth += 1
            i += len(a)
        elif text[i] == '\\':
            i += 2
        else:
            i += 1
    return None


def show(case):
    return case['src']
