"""C07: parsing loses, duplicates or reorders no text and yields a well-formed tree"""
import contextlib
import os
import re
import tempfile

ID = 'C07'
RULE = ('every word of the running text is in the tree once, in the order of the source, below the containers it was written in; '
        'the tree is well-formed; substitutions are applied to running text and to nothing else')
QUICK = (1000000, 40)
THOROUGH = (10 ** 9, 700)
REQUIRED = ['documents', 'words', 'nodes', 'article', 'book', 'report', 'sections', 'starred', 'toc_title', 'itemize', 'enumerate', 'description', 'tabular',
            'multicolumn', 'quote', 'center', 'footnote', 'caption', 'box', 'font', 'declaration', 'group', 'math', 'display', 'verbatim', 'verb',
            'usermacro', 'userenv', 'theorem', 'title', 'abstract', 'bibliography', 'substituted', 'kept', 'nested3', 'toplevel_declaration',
            'group_over_pars', 'group_over_units', 'repeated', 'input', 'endinput', 'no_paragraphs', 'minipage', 'hidden', 'part', 'nocharsub']
ASSUMPTIONS = ['the names of the containers (node names) are those of the LaTeX commands', 'declarations are not containers',
               'text of the title page is found in the title commands', 'cells of math arrays are left out (known finding of C11)']

SUBST = [('---', '\u2014'), ('--', '\u2013'), ('``', '\u201c'), ("''", '\u201d'), ('"`', '\u201e'), ('"\'', '\u201c'), ('`', '\u2018'), ("'", '\u2019')]
LEVELS = {'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}
FONTS = ['textbf', 'emph', 'textit', 'texttt', 'textsc', 'textsf', 'textrm', 'underline', 'textup', 'textmd']
DECLS = ['bfseries', 'itshape', 'em', 'large', 'small', 'ttfamily', 'scshape', 'bf', 'it', 'tiny', 'Large', 'normalfont', 'centering', 'raggedright']
ENVS = ['quote', 'center', 'quotation', 'flushleft', 'flushright', 'verse']
BOXES = {'mbox': 'mbox', 'fbox': 'fbox', 'parbox': 'parbox', 'makebox': 'makebox', 'framebox': 'framebox', 'hbox': 'hbox', 'raisebox': 'raisebox'}


def subst(t, off=()):
    for a, b in SUBST:
        if a not in off:
            t = t.replace(a, b)
    return t


TIGHT = re.compile(r'[{$]|\\(\(|(%s|footnote|verb|dup|pair)\b)' % '|'.join(FONTS + sorted(BOXES)))


class Gen:
    def __init__(self, s, off):
        self.s = s
        self.n = 2
        self.repeat = s.bool(1, 8)      # nodes with equal content
        self.uid = 0
        self.words = []          # [text, [[name, uid], ...]]
        self.marks = []
        self.off = off
        self.infoot = False
        self.labels = 0
        self.files = {}
        self.multi = False

    def file(self, text, par=False):
        """A command that inputs a file with the text"""
        s = self.s
        self.mark('input')
        n = s.choice(['', '', 'sub/', 'a_b-']) + 'f%d' % (len(self.files) + 1)
        f = n + s.choice(['.tex', '.tex', '.tex', '', '.inc'])
        bare = s.bool(1, 4)
        # the blank behind the name belongs to the name
        text += '\n' if bare else s.choice(['', '\n', '\n', '%\n', ' \n'])
        if s.bool(1, 6):
            self.mark('endinput')
            text = text.rstrip('\n') + '\n\\endinput\nw0 \\textbf{w0}\n'
        self.files[f] = text
        if f.endswith('.tex') and s.bool(1, 2):
            f = n
        if par and not bare and s.bool(1, 3):
            return '\\include{%s}' % f
        if bare:
            return '\\input %s' % f + s.choice([' ', '\n'])
        return s.choice(['\\input{%s}', '\\input{%s}', '\\input {%s}']) % f

    def mark(self, *a):
        self.marks += a

    def new(self, chain, name):
        self.uid += 1
        return chain + [[name, self.uid]]

    # ---- words

    def word(self, chain, keep=False, p='w'):
        s = self.s
        if self.repeat and s.bool(1, 2):
            self.mark('repeated')
            t = '%s%d' % (p, s.choice([1, 1, 2]))
        else:
            self.n += 1
            t = '%s%d' % (p, self.n)
        k = s.weighted([(6, 'plain'), (4, 'subst')])
        if k == 'subst':
            f = s.choice(["``%s''", "`%s'", "%s's", '%s--x', '%s---', "%s'", "''%s", "x''%s--y", '---%s', "`%s", '%s-x', '%s--', "%s'''", "```%s", "\"`%s\"'"])
            t = f % t
        self.words.append([t if keep else subst(t, self.off), chain, 1 if k == 'subst' else 0, 1 if keep else 0])
        self.mark(*(['kept'] if keep and k == 'subst' else ['substituted'] if k == 'subst' else []))
        return t

    def sep(self):
        return self.s.weighted([(12, ' '), (3, '\n'), (1, '  '), (1, '\\ '), (1, '~'), (1, ' %c w0\n'), (1, ', '), (1, '\\, '), (1, ' \\& '), (1, '\\quad ')])

    def text(self, chain, lo=1, hi=3):
        return self.sep().join(self.word(chain) for _ in range(self.s.int(lo, hi)))

    # ---- inline material; par: may contain paragraphs

    def inline(self, chain, depth, arg=False):
        s = self.s
        w = [(6, 'text')]
        if depth > 0:
            w += [(3, 'font'), (2, 'decl'), (2, 'group'), (1, 'box'), (2, 'math'), (1, 'macro'), (1, 'misc'), (1, 'hidden')]
            if not self.infoot:
                w += [(1, 'foot')]
            if not arg:
                w += [(1, 'verb'), (1, 'marginpar')]
                if self.multi:
                    w += [(1, 'file')]
        k = s.weighted(w)
        if k == 'text':
            return self.text(chain)
        if k == 'file':
            return self.file(self.inlines(chain, depth - 1)) + s.choice([' ', '\n'])
        if depth <= 1:
            self.mark('nested3')
        if k == 'font':
            f = s.choice(FONTS)
            self.mark('font')
            return '\\%s{%s}' % (f, self.inlines(self.new(chain, f), depth - 1, arg))
        if k == 'decl':
            self.mark('declaration')
            return '{\\%s %s}' % (s.choice(DECLS[:-2]), self.inlines(self.new(chain, 'bgroup'), depth - 1, arg))
        if k == 'group':
            self.mark('group')
            return '{%s}' % self.inlines(self.new(chain, 'bgroup'), depth - 1, arg, 0)
        if k == 'box':
            self.mark('box')
            b = s.choice(sorted(BOXES))
            o = {'parbox': s.choice(['', '[t]']) + '{2cm}', 'makebox': s.choice(['', '[2cm]', '[2cm][c]']), 'framebox': s.choice(['', '[2cm]']),
                 'raisebox': '{2pt}'}.get(b, '')
            return '\\%s%s{%s}' % (b, o, self.inlines(self.new(chain, BOXES[b]), depth - 1, arg))
        if k == 'math':
            return self.math(chain, arg)
        if k == 'macro':
            self.mark('usermacro')
            m = s.choice(['dup', 'pair', 'opt', 'noarg'])
            if m == 'dup':
                return '\\dup{%s}' % self.inlines(self.new(chain, 'textbf'), depth - 1, True)
            if m == 'pair':
                return '\\pair{%s}{%s}' % (self.inlines(self.new(chain, 'emph'), depth - 1, True), self.inlines(chain, depth - 1, True))
            if m == 'opt':
                return '\\opt%s{%s}' % ('[' + self.text(chain) + ']' if s.bool() else '', self.inlines(self.new(chain, 'textit'), depth - 1, True))
            return '\\noarg{}' + s.choice(['', ' ']) + self.text(chain)
        if k == 'foot':
            self.infoot = True
            self.mark('footnote')
            o = s.choice(['', '', '[3]'])
            c = self.new(chain, 'footnote')
            t = self.inlines(c, depth - 1, True)
            if s.bool(1, 4):
                t += s.choice(['\n\n', '\\par ']) + self.inlines(c, depth - 1, True) if not arg else ''
            self.infoot = False
            return s.choice(['', ' ']) + '\\footnote%s{%s}' % (o, t)
        if k == 'marginpar':
            return '\\marginpar{%s}' % self.inlines(self.new(chain, 'marginpar'), depth - 1, True)
        if k == 'verb':
            self.mark('verb')
            return '\\verb%s|%s|' % (s.choice(['', '*']), self.word(self.new(chain, 'verb'), True, 'v'))
        if k == 'hidden':
            self.mark('hidden')
            return s.choice(['\\iffalse w0 \\textbf{w0} \\fi ', '% w0 \\textbf{w0\n', '\\index{a!b}', '\\gobble{w0 \\emph{w0}}']) + self.text(chain)
        if s.bool(1, 3):
            self.labels += 1
            return '\\label{l%d} %s \\ref{l%d}' % (self.labels, self.text(chain), self.labels)
        return self.text(chain) + s.choice([' \\noindent ', ' \\hfill ', '\\/ ', ' \\newline ', '\\-', ' \\dots{} ', ' \\LaTeX{} ', " \\'e ", ' \\ss{} ', ' {} ',
                                            ' \\S ', '\\footnotemark ', ' \\hspace{1em} ', ' \\vspace{1em} ', ' \\relax ', ' \\pagebreak ']) + self.text(chain)

    def inlines(self, chain, depth, arg=False, lo=1):
        s = self.s
        out = ''
        for i in range(s.weighted([(3, lo), (3, 1), (2, 2), (1, 3)])):
            t = self.inline(chain, depth, arg)
            if i and not (TIGHT.match(t) and s.bool(1, 3)):
                out += self.sep()
            out += t
        return out

    def math(self, chain, arg=False):
        s = self.s
        self.mark('math')
        env, a, b = s.choice([('math', '$', '$'), ('math', '\\(', '\\)'), ('math', '\\begin{math}', '\\end{math}')])
        c = self.new(chain, env)
        return a + self.formula(c) + b

    def formula(self, c):
        s = self.s
        out = []
        for _ in range(s.int(1, 3)):
            f = s.choice(['%s', '%s', '{%s}', '\\frac{%s}{2}', 'x_{%s}', 'x^{%s}_2', '\\sqrt{%s}', '\\mathrm{%s}', '\\left(%s\\right)', '{\\rm %s}', '\\hat{%s}',
                          '{{%s}}', '\\bar{{%s}}'])
            self.n += 1
            t = s.choice(["m%d'", "m%d''", 'm%d--x', '`m%d', 'm%d', "m%d'+", '--m%d', "''m%d"]) % self.n
            self.words.append([t, c, 0, 1])
            self.mark('kept')
            out.append(f % t)
        return ' '.join(out)

    # ---- blocks

    def block(self, chain, depth, cell=False):
        s = self.s
        w = [(4, 'list'), (2, 'desc'), (3, 'env'), (2, 'display'), (2, 'verbatim'), (1, 'userenv'), (1, 'theorem'), (1, 'groupblock'), (1, 'minipage'),
             (2, 'tabular')]
        if not self.infoot and not cell:
            w += [(1, 'figure')]
        k = s.weighted(w)
        if depth <= 1:
            self.mark('nested3')
        if k == 'list':
            e = s.choice(['itemize', 'enumerate'])
            self.mark(e)
            c = self.new(chain, e)
            out = '\\begin{%s}%s' % (e, s.choice(['', '\n', ' ', '%c\n', '\n\n']))
            for _ in range(s.int(1, 3)):
                i = self.new(c, 'item')
                out += '\\item' + (s.choice([' ', '\n', '\n\n']) if s.bool(5, 6) else '[%s]' % self.inlines(i, min(depth - 1, 1), True))
                out += self.flow(i, depth - 1, s.int(0, 2)) + s.choice(['\n', ' ', '\n\n', ''])
            return out + '\\end{%s}' % e
        if k == 'desc':
            self.mark('description')
            c = self.new(chain, 'description')
            out = '\\begin{description}\n'
            for _ in range(s.int(1, 3)):
                i = self.new(c, 'item')
                out += '\\item[%s]%s' % (self.inlines(i, min(depth - 1, 2), True), s.choice([' ', '', '\n'])) + self.flow(i, depth - 1, s.int(0, 2)) + \
                    s.choice(['\n', '\n\n'])
            return out + '\\end{description}'
        if k == 'env':
            e = s.choice(ENVS)
            self.mark('quote' if e == 'quote' else 'center' if e == 'center' else 'env')
            return '\\begin{%s}%s%s%s\\end{%s}' % (e, s.choice(['', '\n', '\n\n']), self.flow(self.new(chain, e), depth - 1, s.int(1, 3)),
                                                   s.choice(['', '\n', '\n\n']), e)
        if k == 'display':
            self.mark('display')
            env, a, b = s.choice([('displaymath', '\\[', '\\]'), ('displaymath', '$$', '$$'), ('equation', '\\begin{equation}', '\\end{equation}'),
                                  ('displaymath', '\\begin{displaymath}', '\\end{displaymath}')])
            return a + self.formula(self.new(chain, env)) + b
        if k == 'verbatim':
            self.mark('verbatim')
            c = self.new(chain, 'verbatim')
            return '\\begin{verbatim}\n%s\n\\end{verbatim}' % s.choice(['\n', ' ', '\n\n', ' {% ', ' \\ ']).join(
                self.word(c, True, 'v') for _ in range(s.int(1, 4)))
        if k == 'userenv':
            self.mark('userenv')
            c = self.new(self.new(chain, 'bgroup'), 'quote')
            return '\\begin{wrapped}%s\\end{wrapped}' % self.flow(c, depth - 1, s.int(1, 2))
        if k == 'theorem':
            self.mark('theorem')
            c = self.new(chain, 'thmenv')
            o = '[%s]' % self.inlines(c, 1, True) if s.bool(1, 3) else ''
            return '\\begin{thm}%s %s\\end{thm}' % (o, self.flow(c, depth - 1, s.int(1, 2)))
        if k == 'groupblock':
            self.mark('group_over_pars')
            return '{%s%s}' % (s.choice(['', '\\bfseries ', '\\small\n', '\\centering ']), self.flow(self.new(chain, 'bgroup'), depth - 1, s.int(1, 3)))
        if k == 'minipage':
            self.mark('minipage')
            return '\\begin{minipage}%s{3cm}%s\\end{minipage}' % (s.choice(['', '[t]']), self.flow(self.new(chain, 'minipage'), depth - 1, s.int(1, 2)))
        if k == 'figure':
            e = s.choice(['figure', 'table', 'figure*'])
            c = self.new(chain, e)
            self.mark('caption')
            a = self.flow(c, depth - 2, s.int(0, 2)) if s.bool(2, 3) else self.tabular(c, depth - 1)
            cap = self.new(c, 'caption')
            cp = '\\caption' + ('[%s]' % self.inlines(cap, 1, True) if s.bool(1, 3) else '') + '{%s}' % self.inlines(cap, max(depth - 1, 1), True)
            post = s.choice(['', '\n', '\\label{f%d}' % self.uid, '\n\n']) + (self.text(c) if s.bool(1, 4) else '')
            return '\\begin{%s}%s%s%s\n%s%s\\end{%s}' % (e, s.choice(['', '[h]', '[htb]\n']), s.choice(['', '\\centering ', '\\centering\n\n']), a, cp, post, e)
        return self.tabular(chain, depth)

    def tabular(self, chain, depth):
        s = self.s
        self.mark('tabular')
        e = s.choice(['tabular', 'tabular', 'tabular', 'tabular*', 'array_'])
        if e == 'array_':
            e = 'tabular'
        n = s.int(1, 3)
        c = self.new(chain, e)
        rows = []
        for r in range(s.int(1, 3)):
            cells = []
            k = 0
            row = self.new(c, 'ArrayRow')
            while k < n:
                cc = self.new(row, 'ArrayCell')
                if n - k >= 2 and s.bool(1, 5):
                    self.mark('multicolumn')
                    cells.append('\\multicolumn{2}{%s}{%s}' % (s.choice(['c', '|l|', 'r']), self.inlines(self.new(cc, 'multicolumn'), depth - 1, True)))
                    k += 2
                    continue
                k += 1
                t = self.inlines(cc, depth - 1) if not (k > 1 and s.bool(1, 8)) else ''
                if depth > 1 and s.bool(1, 8):
                    t += ' ' + self.block(cc, depth - 1, True)
                if s.bool(1, 8):
                    t = '\\%s %s' % (s.choice(['bfseries', 'itshape', 'small']), t)
                cells.append(t)
            rows.append((s.choice(['', '', '\\hline ']) if rows or n > 1 else '') + s.choice([' & ', '&', '\n& ']).join(cells))
        spec = s.choice(['l' * n, '|'.join('c' * n), 'p{2cm}' * n, '*{%d}{r}' % n])
        return '\\begin{%s}%s{%s}\n%s%s\\end{%s}' % (e, '{5cm}' if e == 'tabular*' else s.choice(['', '[t]']), spec,
                                                     s.choice(['\\\\ ', '\\\\\n', '\\\\[2pt] ', '\\\\*\n']).join(rows), s.choice(['', '\\\\ \\hline ', ' \\\\']), e)

    def flow(self, chain, depth, n, top=False):
        """Paragraphs and blocks"""
        s = self.s
        out, seps = [], []
        for i in range(n):
            k = s.weighted([(5, 'text')] + ([(4, 'block')] if depth > 0 else []) + ([(1, 'topdecl'), (1, 'cmd')] if top else []))
            if k == 'text':
                out.append(self.inlines(chain, max(depth, 1)))
            elif k == 'block':
                out.append(self.block(chain, depth))
            elif k == 'topdecl':
                self.mark('toplevel_declaration')
                out.append('\\%s %s' % (s.choice(DECLS), self.text(chain)))
            else:
                out.append(s.choice(['\\clearpage', '\\newpage', '\\bigskip', '\\tableofcontents', '\\vfill', '\\hrule', '\\setcounter{page}{3}',
                                     '\\pagestyle{plain}', '\\newcommand\\late{x}', '\\noindent', '\\begingroup\\endgroup', '\\def\\x{y}', '\\protect']))
                out[-1] += s.choice([' ', '\n\n', '\n'])
            if i < n - 1:
                seps.append(s.weighted([(6, '\n\n'), (2, '\\par '), (3, '\n'), (3, ' '), (1, '\n\n\n'), (1, ' %c\n\n'), (1, '\\par\n\n'),
                                        (1, '\n\n\\par\n'), (1, '\\\\ '), (2, None)]))
        t = out[0] if out else ''
        for x, y in zip(seps, out[1:]):
            if x is None:
                x = '' if re.search(r'\\end\{\w+\}$', t) or re.match(r'\\begin\{', y) else ' '
            t += x + y
        return t


MACROS = ('\\newcommand\\dup[1]{\\textbf{#1}}\\newcommand\\pair[2]{\\emph{#1} #2}\\newcommand\\opt[2][]{#1 \\textit{#2}}\\newcommand\\noarg{}'
          '\\newcommand\\gobble[1]{}\\newenvironment{wrapped}{\\begin{quote}}{\\end{quote}}\\newtheorem{thm}{Theorem}\n')


def group(s, g, chain, depth, t):
    """The text of a unit that ends inside a group which later units may end"""
    g.mark('group_over_units')
    b, e = s.choice([('{', '}'), ('{', '}'), ('\\begingroup ', '\\endgroup '), ('\\bgroup ', '\\egroup ')])
    c = g.new(chain, 'bgroup' if b != '\\begingroup ' else 'begingroup')
    t += s.choice([' ', '\n', '\n\n']) + b
    if s.bool(1, 2):
        t += '\\%s ' % s.choice(DECLS)
    if s.bool(3, 4):
        t += s.choice(['', '\n\n']) + g.inlines(c, depth)
    return t, e


def gen(s, tier):
    off = s.weighted([(8, []), (1, ['--']), (1, ['``', "''"]), (1, ["'"])])
    g = Gen(s, off)
    if off:
        g.mark('nocharsub')
    g.multi = s.bool(1, 12)
    cls = s.choice(['article', 'article', 'book', 'report'])
    g.mark(cls)
    depth = s.weighted([(3, 1), (4, 2), (4, 3), (2, 4)])
    src = '\\documentclass%s{%s}\n' % (s.choice(['', '[12pt]']), cls) + MACROS
    title = s.bool(1, 4)
    if title:
        g.mark('title')
        src += '\\title{%s}\n\\author{%s}\n' % (g.inlines(g.new([], 'title'), 1, True), g.inlines(g.new([], 'author'), 1, True))
        if s.bool(1, 2):
            src += '\\date{%s}\n' % g.text(g.new([], 'date'))
    doc = g.new([], 'document')
    src += '\\begin{document}' + s.choice(['', '\n', '\n\n'])
    if title:
        src += '\\maketitle' + s.choice(['\n', '\n\n', ' '])
    if s.bool(1, 8) and cls != 'book':
        g.mark('abstract')
        src += '\\begin{abstract}%s\\end{abstract}\n' % g.flow(g.new(doc, 'abstract'), depth - 1, s.int(1, 2))
    if s.bool(1, 10):
        # no paragraph at all
        g.mark('no_paragraphs')
        src += g.inlines(doc, depth) + s.choice(['', '\n'])
        return {'src': src + '\\end{document}\n', 'words': g.words, 'marks': g.marks, 'off': off, 'files': g.files}
    names = sorted((k for k in LEVELS if LEVELS[k] >= 1 or cls != 'article' or k == 'part'), key=lambda k: LEVELS[k])
    chain = doc
    out = []
    if s.bool(2, 3):
        out.append(g.flow(chain, depth, s.int(1, 3), True))
    appendix = False
    opened = []
    if out and s.bool(1, 12):
        t, e = group(s, g, chain, depth, out.pop())
        out.append(t)
        opened.append(e)
    for _ in range(s.weighted([(1, 0), (3, 1), (3, 3), (3, 5), (1, 9)])):
        name = s.weighted([(1 if k == 'part' else 2 if LEVELS[k] > 3 else 4, k) for k in names])
        chain = [c for c in chain if c[0] not in LEVELS or LEVELS[c[0]] < LEVELS[name]]
        c = g.new(chain, name)
        g.mark('sections')
        if name == 'part':
            g.mark('part')
        t = '\\' + name
        if s.bool(1, 4):
            t += '*'
            g.mark('starred')
        elif s.bool(1, 5):
            g.mark('toc_title')
            t += '[%s]' % g.inlines(c, 1, True)
        t += '{%s}' % g.inlines(c, 2 if s.bool(1, 3) else 1, True)
        if s.bool(1, 4):
            g.labels += 1
            t += '\\label{s%d}' % g.labels
        t += s.choice(['\n', '\n\n', ' ', '', '%\n'])
        chain = c
        t += g.flow(c, depth, s.weighted([(1, 0), (3, 1), (2, 2), (1, 4)]), True)
        if not appendix and s.bool(1, 20) and name != 'part':
            appendix = True
        if opened and s.bool(1, 2):
            # the end of a group that was begun in the text of an earlier unit
            t += s.choice([' ', '', '\n']) + opened.pop() + s.choice([' ', '', '\n', '\n\n'])
            if s.bool(2, 3):
                t += g.inlines(c, depth)
        if s.bool(1, 12):
            t, e = group(s, g, c, depth, t)
            opened.append(e)
        out.append(t)
    if opened:
        out.append(''.join(reversed(opened)))
    if s.bool(1, 6):
        g.mark('bibliography')
        c = g.new(chain, 'thebibliography')
        t = '\\begin{thebibliography}{99}\n'
        for i in range(s.int(1, 3)):
            b = g.new(c, 'bibitem')
            t += '\\bibitem%s{k%d} ' % ('[%s]' % g.text(b, 1, 1) if s.bool(1, 3) else '', i) + g.flow(b, 1, 1) + '\n'
        out.append(t + '\\end{thebibliography}')
    if g.multi:
        # some units are in files of their own, and these may input others
        for _ in range(s.int(1, 3)):
            if out:
                i = s.int(0, len(out) - 1)
                j = s.int(i + 1, min(len(out), i + 3))
                out[i:j] = [g.file(s.choice(['\n\n', '\n', ' ']).join(out[i:j]), True)]
    src += ''.join(o + s.choice(['\n\n', '\n', ' ', '\\par ', '\n\n\n']) for o in out)
    return {'src': src + '\\end{document}' + '\n', 'words': g.words, 'marks': g.marks, 'off': off, 'files': g.files}


def show(case):
    return case['src'] + ''.join('\n(file %s)\n%s\n' % f for f in sorted(case.get('files', {}).items())) + ('\n(disabled substitutions: %s)\n' % case['off'] if case['off'] else '')


class Bad(Exception):
    pass


CONTAINERS = set(LEVELS) | set(FONTS) | set(ENVS) | set(BOXES.values()) | {
    'document', 'itemize', 'enumerate', 'description', 'item', 'tabular', 'tabular*', 'ArrayRow', 'ArrayCell', 'multicolumn', 'figure', 'figure*', 'table', 'caption',
    'footnote', 'math', 'displaymath', 'equation', 'verb', 'verbatim', 'title', 'author', 'date', 'abstract', 'thebibliography', 'bibitem', 'bgroup', 'begingroup', 'thmenv',
    'minipage', 'marginpar'}


def values(v):
    """Nodes in the value of an attribute"""
    from plasTeX.Tokenizer import Token
    if isinstance(v, Token):
        return
    if getattr(v, 'nodeType', None) is not None and hasattr(v, 'parentNode'):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from values(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from values(x)


def walk(node, up, seen, out, obs, name):
    """up: the elements the node was reached through (the innermost is last)"""
    from plasTeX.DOM import Node
    if node.nodeType == Node.TEXT_NODE:
        out.append((str(node), up, node))
    if id(node) in seen:
        raise Bad('node %s %r is reachable twice: in %s and in %s' % (node.nodeName, str(node.textContent)[:30], name(seen[id(node)][1]), name(up)))
    seen[id(node)] = (node, up)
    obs.hit('nodes')
    if up:
        p = node.parentNode
        hops = 0
        # fragments between a node and the element it belongs to are no containers of their own
        while p is not None and p.nodeType == Node.DOCUMENT_FRAGMENT_NODE and p is not up[-1] and hops < 50:
            p = p.parentNode
            hops += 1
        q = up[-1]
        hops = 0
        while q.nodeType == Node.DOCUMENT_FRAGMENT_NODE and p is not q and len(up) > 1 + hops:
            hops += 1
            q = up[-1 - hops]
        if p is not q:
            raise Bad('the parent of %s %r is %s instead of %s' % (node.nodeName, str(node.textContent)[:30], p is not None and p.nodeName, name(up)))
    if node.nodeType == Node.TEXT_NODE:
        return
    here = up + [node]
    at = getattr(node, 'attributes', None)
    if at:
        for k, v in at.items():
            if v is node.childNodes or k == 'self' and v is node:
                continue
            for x in values(v):
                if x is node.childNodes:
                    continue
                walk(x, here, seen, out, obs, name)
    kids = node.childNodes
    for c in kids:
        walk(c, here, seen, out, obs, name)


@contextlib.contextmanager
def directory(files):
    """Work in a directory with the files"""
    if not files:
        yield
        return
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(os.path.join(d, 'sub'))
        for f, t in files.items():
            with open(os.path.join(d, f), 'w', encoding='utf-8') as fp:
                fp.write(t)
        os.chdir(d)
        try:
            yield
        finally:
            os.chdir(cwd)


def name(up):
    return '/'.join(n.nodeName for n in up[-5:])


def run(case, obs):
    from plasTeX.TeX import TeX
    from plasTeX import TeXDocument
    from plasTeX.Config import defaultConfig
    from plasTeX.DOM import Node
    obs.hit('documents')
    for m in case['marks']:
        obs.hit(m)
    config = defaultConfig()
    if case['off']:
        config['document']['disable-charsub'] = list(case['off'])
    tex = TeX(TeXDocument(config=config))
    tex.input(case['src'])
    with directory(case.get('files')):
        if case.get('files') and len(case['words']) % 4:
            # the search of the files without the program
            config['general']['kpsewhich'] = '/nonexistent/kpsewhich'
        doc = tex.parse()
    texts = []
    seen = {}
    try:
        walk(doc, [], seen, texts, obs, name)
    except Bad as e:
        return str(e)
    # the chain of parents ends in the document
    for node, up in seen.values():
        p, k = node, 0
        while p is not None and p is not doc and k < 200:
            p = p.parentNode
            k += 1
        if p is not doc:
            return 'the parents of %s %r do not lead to the document' % (node.nodeName, str(node.textContent)[:30])
    # words
    got = []
    for t, up, node in texts:
        for w in t.split():
            if re.search(r'[wmv]\d', w):
                got.append((w, up))
    want = case['words']
    for i in range(max(len(got), len(want))):
        g, w = (got[i][0] if i < len(got) else None), (want[i][0] if i < len(want) else None)
        if not same(g, w):
            return 'word %d is %r (in %s) instead of %r (in %s)' % (i + 1, g, name(got[i][1]) if g else '-', w, '/'.join(
                c[0] for c in want[i][1]) if w else '-')
        obs.hit('words')
    # containers
    node_of, uid_of = {}, {}
    for (g, up), (w, chain, _, _) in zip(got, want):
        have = [n for n in up if n.nodeType == Node.ELEMENT_NODE and n.nodeName in CONTAINERS]
        cut = [i for i, n in enumerate(have) if n.nodeName in ('math', 'displaymath', 'equation')]
        if cut:
            have = have[:cut[0] + 1]
        if [n.nodeName for n in have] != [c[0] for c in chain]:
            return 'the containers of %r are %s instead of %s' % (g, '/'.join(n.nodeName for n in have), '/'.join(c[0] for c in chain))
        for n, (nm, uid) in zip(have, chain):
            if node_of.setdefault(uid, n) is not n:
                return '%r is in another %s than the words before it' % (g, nm)
            if uid_of.setdefault(id(n), uid) != uid:
                return '%r is in the same %s as the words before it' % (g, nm)
        obs.seen('chains', '/'.join(c[0] for c in chain[-3:]))
        if len(chain) > 2:
            obs.nontrivial = True
    # sections and paragraphs
    for node, up in seen.values():
        if node.nodeType != Node.ELEMENT_NODE:
            continue
        if node.nodeName in LEVELS and node.nodeName != 'part':
            for c in node.childNodes:
                if c.nodeName == 'par' or c.level == Node.PAR_LEVEL:
                    continue
                if c.nodeType == Node.ELEMENT_NODE and c.level < Node.ENDSECTIONS_LEVEL and c.level > node.level:
                    continue
                return 'a %s contains %s %r' % (node.nodeName, c.nodeName, str(c.textContent)[:30])
        if node.nodeName == 'par':
            for c in node.childNodes:
                if c.nodeName == 'par':
                    return 'a paragraph contains a paragraph (%r)' % str(c.textContent)[:30]
    return None


def same(g, w):
    if g is None or w is None:
        return g is w
    # punctuation that is generated between words may stick to them
    return g.rstrip(',') == w
