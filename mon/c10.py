r"""C10: lists and tables keep their shape: items, rows, cells and spans as written.

Documents of nested lists and tables are generated together with the shape their author wrote; a walker reads the shape off the
parsed document: items and their terms, rows, cells, spans, the text of each with the formatting around it, and the table lines
that each cell border draws.
"""
import re

ID = 'C10'
RULE = 'a document counts if it has a list of two items or a table of two cells'
QUICK = (6000, 35)
THOROUGH = (150000, 780)
REQUIRED = ['documents', 'list', 'itemize', 'enumerate', 'description', 'trivlist', 'mylist', 'nested_list', 'term', 'empty_term', 'empty_item', 'table',
            'tabular', 'tabular*', 'array', 'pmatrix', 'nested_table', 'multicolumn', 'mc_bars', 'hline', 'cline', 'vbar', 'rule_last',
            'empty_cell', 'empty_row', 'decl', 'local_def', 'no_last_sep', 'pcol', 'atcol', 'star', 'star2', 'list_in_cell', 'table_in_item', 'deep_list',
            'booktabs', 'macro_sep', 'short_row', 'par', 'break', 'cases', 'bmatrix', 'align*', 'longtable', 'tabularx', 'float', 'cr', 'matrix',
            'substack', 'aligned', 'mfrac', 'around', 'repeated']
ASSUMPTIONS = ['a line written with \\cline starts and ends at borders of the cells next to it',
               'rows that hold nothing but blanks (and rules) are no rows', 'font declarations in items are in groups of their own']

FMT = {'bfseries', 'itshape', 'small', 'emph', 'textbf', 'textit', 'quote', 'center', 'footnote', 'mbox', 'parbox', 'minipage', 'math',
       'displaymath', 'texttt', 'footnotesize', 'textrm'}


class G:
    def __init__(self, s):
        self.s, self.n = s, 2
        self.repeat = s.bool(1, 6)
        self.marks = []
        self.budget = s.weighted([(2, 6), (4, 15), (3, 30), (1, 60)])

    def word(self, ctx):
        s = self.s
        if self.repeat and s.bool(1, 2):
            # equal content
            self.marks.append('repeated')
            w = s.choice(['w1', 'w1', 'w2'])
        else:
            self.n += 1
            w = 'w%d' % self.n
        if ctx.get('math') or s.bool(7, 8):
            return w, w
        a, b = s.choice([('\\&', '&'), ('\\%', '%'), ('\\_', '_'), ('\\{', '{'), ('{}', ''), ('\\$', '$'), ('\\#', '#'), ('/', '/')])
        return w + a + 'x', w + b + 'x'

    def content(self, depth, fmt, ctx, low=0, high=3):
        """Returns source and shape of some content"""
        s = self.s
        src, want = [], []
        for _ in range(s.int(low, high)):
            a, b = self.piece(depth, fmt, ctx)
            src.append(a)
            want += b
        return s.weighted([(6, ' '), (1, '\n'), (1, ' % c & \\\\ \\item\n')]).join(src), merge(want)

    def piece(self, depth, fmt, ctx):
        s = self.s
        self.budget -= 1
        w = [(6, 'word')]
        if depth > 0 and self.budget > 0:
            if ctx.get('math'):
                w += [(1, 'mgroup'), (1, 'script'), (1, 'mrm'), (2, 'matrix'), (1, 'substack'), (1, 'mfrac')]
            else:
                w += [(2, 'arg'), (2, 'group'), (2, 'table'), (1, 'imath'), (1, 'mbox'), (1, 'local')]
                if not ctx.get('lr'):
                    w += [(3, 'list'), (1, 'par'), (1, 'env'), (1, 'display')]
                    if ctx.get('brk'):
                        w.append((2, 'break'))
                else:
                    w += [(1, 'minipage')]
                if not ctx.get('fn'):
                    w.append((1, 'footnote'))
        k = s.weighted(w)
        if k == 'word':
            a, b = self.word(ctx)
            return a, [['t', fmt, b]]
        if k == 'break':
            self.marks.append('break')
            a, b = self.word(ctx)
            return s.choice(['\\\\ ', '\\\\*', '\\\\[1pt]', '\\newline ']) + a, [['t', fmt, b]]
        if k == 'mgroup':
            a, b = self.content(depth - 1, fmt, ctx)
            return '{%s}' % a, b
        if k == 'script':
            a, b = self.word(ctx)
            c, d = self.word(ctx)
            return '%s%s{%s}' % (a, s.choice('_^'), c), [['t', fmt, b], ['t', fmt, d]]
        if k == 'mrm':
            a, b = self.content(0, fmt + ['mbox'], {'lr': 1, 'loc': ctx.get('loc', 'B')}, 1, 2)
            return '\\mbox{%s}' % a, b
        if k == 'substack':
            self.marks.append('substack')
            a, b = self.word(ctx)
            c, d = self.word(ctx)
            return '\\sum_{\\substack{%s\\\\%s}}' % (a, c), [['t', fmt, b], ['t', fmt, d]]
        if k == 'mfrac':
            self.marks.append('mfrac')
            a, b = self.content(depth - 1, fmt, ctx)
            return s.choice(['\\sqrt{%s}', '\\left(%s\\right)', '\\overline{%s}']) % a, b
        if k == 'matrix':
            return self.table(depth - 1, fmt, ctx)
        if k == 'arg':
            c = s.choice(['emph', 'textbf', 'textit', 'texttt'])
            a, b = self.content(depth - 1, fmt + [c], dict(ctx, lr=1), 1, 2)
            if c == 'emph' and s.bool(1, 3):
                return '\\my{%s}' % a, b
            return '\\%s{%s}' % (c, a), b
        if k == 'group':
            c = s.choice(['bfseries', 'itshape', 'small', ''])
            a, b = self.content(depth - 1, fmt + [c] if c else fmt, ctx, 1, 2)
            return ('{\\%s %s}' % (c, a)) if c else '{%s}' % a, b
        if k == 'table':
            a, b = self.table(depth - 1, fmt, ctx)
            return a, b
        if k == 'imath':
            a, b = self.content(depth - 1, fmt + ['math'], {'math': 1, 'loc': ctx.get('loc', 'B')}, 1, 2)
            return s.choice(['$%s$', '\\(%s\\)']) % a, b
        if k == 'display':
            a, b = self.content(depth - 1, fmt + ['displaymath'], {'math': 1, 'loc': ctx.get('loc', 'B')}, 1, 2)
            return s.choice(['\\[%s\\]', '\\begin{displaymath}%s\\end{displaymath}']) % a, b
        if k == 'mbox':
            a, b = self.content(depth - 1, fmt + ['mbox'], dict(ctx, lr=1), 1, 2)
            return '\\mbox{%s}' % a, b
        if k == 'minipage':
            c = s.choice(['minipage', 'parbox'])
            a, b = self.content(depth - 1, fmt + [c], dict(ctx, lr=0, brk=1), 1, 2)
            return ('\\begin{minipage}{3cm}%s\\end{minipage}' if c == 'minipage' else '\\parbox{3cm}{%s}') % a, b
        if k == 'footnote':
            a, b = self.content(depth - 1, fmt + ['footnote'], {'fn': 1, 'loc': ctx.get('loc', 'B')}, 1, 2)
            return '\\footnote{%s}' % a, b
        if k == 'env':
            c = s.choice(['quote', 'center'])
            a, b = self.content(depth - 1, fmt + [c], dict(ctx, brk=c == 'center' or ctx.get('brk')), 1, 2)
            return '\\begin{%s}%s\\end{%s}' % (c, a, c), b
        if k == 'par':
            self.marks.append('par')
            a, b = self.word(ctx)
            return s.choice(['\n\n', '\\par ', '\\par\n\n']) + a, [['t', fmt, b]]
        if k == 'local':
            # (cells and groups undo it)
            self.n += 1
            self.marks.append('local_def')
            return s.choice(['{\\def\\loc{L%d}\\loc}', '{\\renewcommand\\loc{L%d}\\loc}']) % self.n + '\\loc', \
                [['t', fmt, 'L%d%s' % (self.n, ctx.get('loc', 'B'))]]
        return self.list(depth - 1, fmt, ctx)

    # ---- lists

    def list(self, depth, fmt, ctx):
        s = self.s
        self.marks.append('list')
        level = ctx.get('lists', 0) + 1
        kinds = ['description', 'trivlist', 'list', 'mylist'] if level > 4 else \
            ['itemize', 'enumerate', 'description', 'itemize', 'enumerate', 'trivlist', 'list', 'mylist']
        if level > 1:
            self.marks.append('nested_list')
        if level > 3:
            self.marks.append('deep_list')
        if level > 5:
            a, b = self.word(ctx)
            return a, [['t', fmt, b]]
        k = s.choice(kinds)
        self.marks.append(k)
        name = 'itemize' if k == 'mylist' else k
        begin = '\\begin{%s}' % k + ('{--}{\\setlength{\\itemsep}{1pt}}' if k == 'list' else '')
        sub = dict(ctx, lists=level)
        src, items = [begin], []
        deep = s.choice([depth, depth, depth - 1])
        for i in range(s.weighted([(1, 1), (3, 2), (2, 3), (1, 5)])):
            term = None
            t = '\\item'
            if (k == 'description' and s.bool(7, 8)) or s.bool(1, 6):
                self.marks.append('term')
                ta, term = self.content(1 if s.bool(1, 3) else 0, fmt, dict(sub, lr=1), 0, 2)
                if s.bool(1, 8):
                    ta, term = '', []
                    self.marks.append('empty_term')
                elif ']' in ta or '[' in ta or s.bool(1, 5):
                    ta = '{%s}' % ta
                elif s.bool(1, 8):
                    ta += '{ [x] }'
                    term = merge(term + [['t', fmt, '[x]']])
                t += s.choice(['[%s]', ' [%s]', '[%s] ']) % ta
            a, b = self.content(deep, fmt, sub, 0 if s.bool(1, 8) else 1, 3)
            if not b:
                self.marks.append('empty_item')
            if s.bool(1, 6):
                a = s.choice(['\n\n', '% x\n', '\\relax ']) + a
            t += ' ' + a
            src.append(t)
            items.append([term, b])
        sep = s.weighted([(6, '\n'), (2, ' '), (1, '\n\n'), (1, '%\n'), (1, '\n%\\item no\n')])
        return sep.join(src) + sep + '\\end{%s}' % k, [['L', name, items]]

    # ---- tables

    def table(self, depth, fmt, ctx, kind=None):
        s = self.s
        math = ctx.get('math')
        self.marks.append('table')
        if ctx.get('tables'):
            self.marks.append('nested_table')
        k = kind or s.choice(['array', 'array', 'pmatrix', 'bmatrix', 'cases', 'matrix', 'aligned'] if math else
                             ['tabular', 'tabular', 'tabular', 'tabular*', 'tabularx'])
        nospec = k not in ('array', 'tabular', 'tabular*', 'tabularx', 'longtable')
        self.marks.append(k)
        n = s.int(1, 5)
        if ctx.get('tables', 0) > 1:
            n = min(n, 2)
        spec, bars, para = self.colspec(n) if not nospec else ('', set(), [0] * n)
        short = s.bool(1, 8) and n > 1
        norules = nospec or short or s.bool(1, 4)
        book = not norules and not math and s.bool(1, 6)
        nrows = s.weighted([(1, 1), (3, 2), (2, 3), (1, 4), (1, 6)])
        if ctx.get('tables', 0) > 0:
            nrows = min(nrows, 3)
        spaces = s.choice([' & ', '&', '\n& ', ' &\n'])
        msep = not math and s.bool(1, 8)
        rows = []     # [cells: span, want, src, leftbar, rightbar]
        for i in range(nrows):
            empty = s.bool(1, 14)
            cells, c = [], 0
            m = n if not short else s.int(1, n)
            while c < m:
                span = 1
                mc = not nospec and s.bool(1, 6)
                if mc:
                    span = s.int(1, m - c)
                sub = dict(ctx, tables=ctx.get('tables', 0) + 1, brk=0, lr=0 if para[c] and not mc else 1)
                if mc and math:
                    sub = dict(sub, math=1)
                lo = 0 if s.bool(1, 6) or empty else 1
                f, pre = fmt, ''
                if not math and not empty and s.bool(1, 6):
                    d = s.choice(['bfseries', 'itshape', 'small'])
                    pre, f = '\\%s ' % d, fmt + [d]
                    self.marks.append('decl')
                elif not math and not empty and s.bool(1, 12):
                    self.n += 1
                    pre = '\\def\\loc{C%d}\\loc ' % self.n
                    sub = dict(sub, loc='C%d' % self.n)
                    self.marks.append('local_def')
                a, b = self.content(depth if depth > 0 else 0, f, sub, 0 if empty else lo, 0 if empty else 2)
                if pre.startswith('\\def'):
                    b = merge([['t', f, sub['loc']]] + b)
                elif b and not math and s.bool(1, 8):
                    a += ' \\loc '
                    b = merge(b + [['t', f, ctx.get('loc', 'B')]])
                if a.lstrip().startswith('['):
                    a = '{}' + a
                a = pre + a
                lb = rb = None
                if mc:
                    self.marks.append('multicolumn')
                    lb, rb = c == 0 and s.bool(1, 2), s.bool(1, 2)
                    if lb or rb:
                        self.marks.append('mc_bars')
                    sp = ('|' if lb else '') + s.choice(['c', 'l', 'r', 'p{1cm}', '@{}c', 'c@{}'][:4 if s.bool(5, 6) else 6]) + \
                        ('|' if rb else '')
                    if not lb and not rb and span < 10 and s.bool(1, 4):
                        a, sp = '\\mc{%d}{%s}' % (span, a), None
                    else:
                        a = '\\multicolumn%s{%s}{%s}' % ('{%d}' % span if s.bool(9, 10) else '%d' % span, sp, a)
                cells.append([span, b, a, lb, rb])
                c += span
            if not any(x[1] for x in cells):
                empty = True
                for x in cells:
                    x[0], x[2], x[3], x[4] = 1, '', None, None
                if s.bool():
                    del cells[1:]
            if any(not x[1] for x in cells) and not empty:
                self.marks.append('empty_cell')
            rows.append([empty, cells])
        if all(r[0] for r in rows):
            a, b = self.word(ctx)
            rows[0] = [False, [[1, [['t', fmt, b]], a, None, None]] + [[1, [], '', None, None] for _ in range(n - 1)]]
        # the rules in front of each row and behind the last
        src = []
        lines = {}
        shown = [i for i, r in enumerate(rows) if not r[0]]
        for i in range(nrows + 1):
            if not norules:
                after = [j for j in shown if j >= i]
                before = [j for j in shown if j < i]
                b = shown.index(after[0]) if after else len(shown)
                ref = rows[after[0] if after else before[-1]][1]
                for _ in range(s.weighted([(5, 0), (5, 1), (1, 2)])):
                    edges = [0]
                    for x in ref:
                        edges.append(edges[-1] + x[0])
                    if s.bool(1, 2) or i > 0 and rows[i - 1][0] or i < nrows and rows[i][0]:
                        src.append(s.choice(['\\toprule', '\\midrule', '\\bottomrule', '\\midrule[1pt]']) if book else '\\hline')
                        self.marks.append('booktabs' if book else 'hline')
                        cols = range(n)
                    else:
                        x = s.int(0, len(edges) - 2)
                        y = s.int(x + 1, len(edges) - 1)
                        src.append(('\\cmidrule%s{%d-%d}' % (s.choice(['', '(lr)', '[1pt]', '(l)']), edges[x] + 1, edges[y])) if book else
                                   '\\cline{%d-%d}' % (edges[x] + 1, edges[y]))
                        cols = range(edges[x], edges[y])
                        self.marks.append('cline')
                    lines.setdefault(b, set()).update(cols)
                    if not after:
                        self.marks.append('rule_last')
                    src.append(s.weighted([(5, ' '), (2, '\n'), (1, '' if src[-1][-1] == '}' else '%\n')]))
            if i == nrows:
                break
            empty, cells = rows[i]
            sep = '\\amp ' if msep and s.bool() else spaces
            if sep == '\\amp ':
                self.marks.append('macro_sep')
            src.append(sep.join(x[2] for x in cells))
            if empty:
                self.marks.append('empty_row')
            end = s.weighted([(10, '\\\\\n'), (3, '\\\\ '), (1, '\\\\[2pt]\n'), (1, '\\\\*\n'), (1, '\\tabularnewline\n'), (1, '\\cr '), (1, '\\\\[ 1ex ]')])
            if nospec or math:
                end = s.choice(['\\\\\n', '\\\\\n', '\\\\ ', '\\\\[2pt]\n', '\\cr\n'])
            if i == nrows - 1 and not (norules is False) and s.bool(1, 2):
                end = s.choice(['', '\n'])
                self.marks.append('no_last_sep')
            if end[:3] == '\\cr':
                self.marks.append('cr')
            src.append(' ' if end[:1] == '\\' and s.bool(1, 2) else '')
            src.append(end)
        if short:
            self.marks.append('short_row')
        if spec and '|' in spec:
            self.marks.append('vbar')
        want = []
        for j, i in enumerate(shown):
            v, c = set(), 0
            for span, b, a, lb, rb in rows[i][1]:
                if lb is None:
                    if c == 0 and 0 in bars:
                        v.add(0)
                    if c + 1 in bars:
                        v.add(c + 1)
                else:
                    if lb:
                        v.add(c)
                    if rb:
                        v.add(c + span)
                c += span
            want.append([[[x[0], x[1]] for x in rows[i][1]], sorted(v)])
        body = ''.join(src)
        head = {'array': '\\begin{array}%s{%s}', 'tabularx': '\\begin{tabularx}{5cm}%s{%s}', 'longtable': '\\begin{longtable}%s{%s}',
                'tabular': '\\begin{tabular}%s{%s}',
                'tabular*': '\\begin{tabular*}{5cm}%s{%s}'}.get(k, '\\begin{' + k + '}%s%s') % (
                    s.choice(['', '[t]']) if not nospec and k != 'tabularx' else '', spec)
        t = head + s.choice(['\n', ' ', '']) + body + '\\end{%s}' % k
        return t, [['T', k, want, [[b, sorted(c)] for b, c in sorted(lines.items())], n]]

    def colspec(self, n):
        s = self.s
        out, bars, para = [], set(), []
        wantbars = s.bool(2, 3)

        def bar(c):
            if wantbars and s.bool(1, 2):
                out.append(s.choice(['|', '|', '||', '| ']))
                bars.add(c)

        if s.bool(1, 8):
            out.append('@{%s}' % s.choice(['', '\\hspace{1pt}']))
            self.marks.append('atcol')
            if s.bool(1, 3) and wantbars:
                out.append('|')
                bars.add(0)
        else:
            bar(0)
        c = 0
        while c < n:
            if n - c > 1 and s.bool(1, 6):
                k = s.int(2, n - c)
                if k % 2 == 0 and s.bool(1, 3):
                    # several columns are repeated
                    inner, bar2 = s.choice([('ll', 0), ('c|c', 1), ('lr|', 2), ('*{2}{c}', 0), ('p{1cm}p{1cm}', 0), ('r r', 0), ('*{2}{l|}', 3)])
                    out.append('*{%d}{%s}' % (k // 2, inner))
                    self.marks.append('star2')
                    for j in range(k):
                        c += 1
                        para.append(inner[0] == 'p')
                        if bar2 == 3 or bar2 and j % 2 == bar2 - 1:
                            bars.add(c)
                    continue
                inner = s.choice(['c', 'l', 'r', 'p{1cm}', 'c|', '@{}l', 'l ', '*{1}{r}'])
                out.append('*{%d}{%s}' % (k, inner))
                self.marks.append('star')
                for j in range(k):
                    c += 1
                    para.append(inner[0] == 'p')
                    if '|' in inner:
                        bars.add(c)
                if s.bool(1, 3):
                    bar(c)
                continue
            t = s.weighted([(3, 'c'), (3, 'l'), (2, 'r'), (2, 'p')])
            if t == 'p':
                self.marks.append('pcol')
                t = s.choice(['p{3cm}', 'p{2em}', 'p {1.5cm}'])
            if s.bool(1, 12):
                # material around the entries that has no effect on the text
                self.marks.append('around')
                t = s.choice(['>{\\raggedright}', '>{\\centering\\arraybackslash}', '> {\\hspace{1pt}}']) + t
            if s.bool(1, 16):
                self.marks.append('around')
                t += s.choice(['<{\\relax}', '<{\\hspace{1pt}}'])
            out.append(t)
            para.append(re.sub('^> ?\\{.*?\\}(?=[lcrp])', '', t)[0] == 'p')
            c += 1
            if s.bool(1, 10):
                out.append(s.choice(['@{ : }', '@{}', '@{x|y}', '@{\\ }']))
                self.marks.append('atcol')
            else:
                bar(c)
            if s.bool(1, 8):
                out.append(' ')
        return ''.join(out), bars, para


def merge(want):
    out = []
    for x in want:
        if x[0] == 't':
            if not x[2]:
                continue
            if out and out[-1][0] == 't' and out[-1][1] == x[1]:
                out[-1] = ['t', x[1], out[-1][2] + x[2]]
                continue
        out.append(x)
    return out


def gen(s, tier):
    g = G(s)
    src, want = [], []
    for _ in range(s.int(1, 3)):
        if s.bool(1, 2):
            a, b = g.list(s.int(1, 4), [], {})
        else:
            k = s.weighted([(6, None), (1, 'longtable'), (1, 'align*')])
            f = s.bool(1, 5) and k is None
            a, b = g.table(s.int(0, 3), ['center'] if f else [], {'lr': 1, 'math': int(k == 'align*')}, k)
            if f:
                g.marks.append('float')
                a = '\\begin{table}[ht]\\caption{c}\\begin{center}%s\\end{center}\\end{table}' % a
        src.append(a)
        want += b
        a, b = g.content(s.int(0, 3), [], {}, 1, 2)
        src.append(a)
        want += b
    return {'src': '\n'.join(src), 'want': merge(want), 'marks': g.marks}


def source(case):
    return ('\\documentclass{article}\n\\usepackage{amsmath,booktabs,longtable,tabularx}\n\\newenvironment{mylist}{\\begin{itemize}}{\\end{itemize}}\n'
            '\\newcommand\\my[1]{\\emph{#1}}\n\\newcommand\\mc[2]{\\multicolumn{#1}{c}{#2}}\n\\newcommand\\amp{&}\n\\newcommand\\loc{B}\n'
            '\\begin{document}\n' + case['src'] + '\n\\end{document}\n')


# ---- reading the shape off the document

RULES = {'hline', 'cline', 'toprule', 'midrule', 'bottomrule', 'cmidrule'}


def read(nodes, fmt, out, items=None):
    from plasTeX.Base.LaTeX.Arrays import Array
    from plasTeX.Base.LaTeX.Lists import List
    for c in nodes:
        if c.nodeType == 3:
            t = ''.join(str(c).split())
            if t:
                out.append(['t', fmt, t])
            continue
        name = c.nodeName
        if name in RULES or name == 'caption' or name in ('par', 'loc') and not c.hasChildNodes():
            continue
        if isinstance(c, List):
            its, extra = [], []
            read_items(c.childNodes, fmt, its, extra)
            out.append(['L', name, its])
            if extra:
                out.append(['outside of the items', extra])
            continue
        if isinstance(c, Array):
            out.append(read_table(c, fmt))
            continue
        if name == 'item' and isinstance(c, List.item):
            out.append(['item outside of a list', content(c.childNodes, fmt)])
            continue
        f = fmt + [name] if name in FMT else fmt
        if not c.hasChildNodes() and name in '%&_#${}':
            out.append(['t', f, str(c.textContent)])
            continue
        read(c.childNodes, f, out)
    return out


def content(nodes, fmt):
    return merge(read(nodes, fmt, []))


def read_items(nodes, fmt, items, extra):
    for c in nodes:
        if c.nodeType == 1 and c.nodeName == 'item':
            term = c.attributes.get('term')
            if term is not None:
                term = content([term] if term.nodeType in (1, 3) else term.childNodes, fmt)
            items.append([term, content(c.childNodes, fmt)])
        elif c.nodeType == 1 and c.nodeName == 'par':
            read_items(c.childNodes, fmt, items, extra)
        else:
            extra += read([c], fmt, [])


def line(cell, side):
    st = cell.style
    for key in ('border-' + side, 'border-%s-style' % side):
        if key in st and 'none' not in str(st[key]) and str(st[key]):
            return True
    return False


def read_table(t, fmt):
    rows = []
    for r in t.childNodes:
        if r.nodeName != 'ArrayRow':
            x = read([r], fmt, [])
            if x:
                rows.append(['outside of the rows', x])
            continue
        cells = []
        v, top, bottom, c = set(), set(), set(), 0
        for cell in r.childNodes:
            span = 1
            if cell.attributes:
                span = cell.attributes.get('colspan') or 1
            cells.append([int(span), content(cell.childNodes, fmt)])
            if line(cell, 'left'):
                v.add(c)
            if line(cell, 'top'):
                top.update(range(c, c + span))
            if line(cell, 'bottom'):
                bottom.update(range(c, c + span))
            c += span
            if line(cell, 'right'):
                v.add(c)
        rows.append([cells, sorted(v), top, bottom])
    rows = [r for r in rows if r[0] == 'outside of the rows' or any(x[1] for x in r[0])]
    lines = {}
    for i, r in enumerate(rows):
        if len(r) == 4:
            if r[2]:
                lines.setdefault(i, set()).update(r[2])
            if r[3]:
                lines.setdefault(i + 1, set()).update(r[3])
    return ['T', t.nodeName, [r[:2] for r in rows], [[b, sorted(c)] for b, c in sorted(lines.items())], None]


def compare(want, got, where):
    for i in range(max(len(want), len(got))):
        w = want[i] if i < len(want) else None
        g = got[i] if i < len(got) else None
        if w is None or g is None or w[0] != g[0] or w[0] == 't' and w != g or w[0] != 't' and w[1] != g[1]:
            return '%s: %s instead of %s' % (where, brief(g), brief(w))
        if w[0] == 'L':
            here = '%s > %s' % (where, w[1])
            if len(w[2]) != len(g[2]):
                return '%s: %d items instead of %d' % (here, len(g[2]), len(w[2]))
            for j, (a, b) in enumerate(zip(w[2], g[2])):
                if (a[0] is None) != (b[0] is None):
                    return '%s: item %d has the term %s instead of %s' % (here, j + 1, brief(b[0]), brief(a[0]))
                m = compare(a[0] or [], b[0] or [], '%s: term %d' % (here, j + 1)) or \
                    compare(a[1], b[1], '%s: item %d' % (here, j + 1))
                if m:
                    return m
        if w[0] == 'T':
            here = '%s > %s' % (where, w[1])
            if len(w[2]) != len(g[2]):
                return '%s: %d rows instead of %d' % (here, len(g[2]), len(w[2]))
            for j, (a, b) in enumerate(zip(w[2], g[2])):
                if len(b) < 2 or b[0] == 'outside of the rows':
                    return '%s: %s' % (here, b)
                at = '%s: row %d' % (here, j + 1)
                if [x[0] for x in a[0]] != [x[0] for x in b[0]]:
                    return '%s: spans %s instead of %s' % (at, [x[0] for x in b[0]], [x[0] for x in a[0]])
                for n, (x, y) in enumerate(zip(a[0], b[0])):
                    m = compare(x[1], y[1], '%s cell %d' % (at, n + 1))
                    if m:
                        return m
                if a[1] != b[1]:
                    return '%s: vertical lines %s instead of %s' % (at, b[1], a[1])
            if w[3] != g[3]:
                return '%s: horizontal lines %s instead of %s' % (here, g[3], w[3])
    return None


def brief(x):
    return repr(x)[:160]


def run(case, obs):
    from plasTeX.TeX import TeX
    tex = TeX()
    tex.input(source(case))
    doc = tex.parse()
    obs.hit('documents')
    for m in case['marks']:
        obs.hit(m)
    body = doc.getElementsByTagName('document')[0]
    got = content(body.childNodes, [])
    stat(case['want'], obs)
    return compare(case['want'], got, 'document')


def stat(want, obs):
    for w in want:
        if w[0] == 'L':
            obs.hit('items', len(w[2]))
            if len(w[2]) > 1:
                obs.nontrivial = True
            for t, b in w[2]:
                stat(t or [], obs)
                stat(b, obs)
                kinds = [x[0] for x in b]
                if 'T' in kinds:
                    obs.hit('table_in_item')
        elif w[0] == 'T':
            for cells, v in w[2]:
                obs.hit('cells', len(cells))
                if len(cells) > 1:
                    obs.nontrivial = True
                obs.seen('shapes', tuple(c[0] for c in cells))
                for span, b in cells:
                    if any(x[0] == 'L' for x in b):
                        obs.hit('list_in_cell')
                    stat(b, obs)


def show(case):
    return source(case)
