r"""C08: automatic numbers follow LaTeX's numbering rules.

A model of LaTeX's counters (values, reset hierarchy, \the... formats, starred forms, rows without number, lists) is run
over the same generated document; the numbers of all numbered nodes, the counters displayed along the way and the values at
the end are compared with it.
"""
import re

ID = 'C08'
RULE = 'a document counts if at least two numbered objects or displayed counters were compared'
QUICK = (6000, 45)
THOROUGH = (100000, 780)
REQUIRED = ['documents', 'sec_numbered', 'sec_starred', 'sec_deep', 'equation', 'equation_star', 'eqnarray_row', 'nonumber', 'row_star',
            'row_space', 'row_trailing', 'align_row', 'cases', 'caption', 'caption_star', 'two_captions', 'thm_own', 'thm_shared',
            'thm_within', 'thm_star', 'amsthm', 'amsmath', 'enum_item', 'enum_nested', 'enum_term', 'enum_empty_term', 'enum_deep', 'setcounter', 'addtocounter',
            'stepcounter', 'refstepcounter', 'value', 'appendix', 'renew', 'numberwithin', 'within_chain', 'arabic', 'roman', 'Roman', 'alph',
            'Alph', 'the', 'book', 'article', 'macro', 'footnote', 'table', 'figure', 'nullarray', 'rep_values', 'reset']
ASSUMPTIONS = ['the numbering depth is the option sec-num-depth; \\frontmatter, subequations and the format of \\part are out of domain',
               'chapter 0 occurs before the first chapter only', '\\alph and \\roman only in their range']

SECS = ['part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph']
LEVEL = {n: i - 1 for i, n in enumerate(SECS)}
REPS = ['arabic', 'roman', 'Roman', 'alph', 'Alph']
ENUM = ['enumi', 'enumii', 'enumiii', 'enumiv']


def roman(n):
    out = ''
    for v, t in ((1000, 'm'), (900, 'cm'), (500, 'd'), (400, 'cd'), (100, 'c'), (90, 'xc'), (50, 'l'), (40, 'xl'), (10, 'x'), (9, 'ix'),
                 (5, 'v'), (4, 'iv'), (1, 'i')):
        while n >= v:
            out += t
            n -= v
    return out


class Discard(Exception):
    pass


class Range(Exception):
    pass


def represent(rep, n):
    if rep == 'arabic':
        return str(n)
    if rep in ('roman', 'Roman'):
        if not 1 <= n <= 4999:
            raise Range
        return roman(n) if rep == 'roman' else roman(n).upper()
    if not 1 <= n <= 26:
        raise Range
    return chr((97 if rep == 'alph' else 65) + n - 1)


# ---------------------------------------------------------------- generation

class G:
    def __init__(self, s, case):
        self.s, self.case, self.n = s, case, 0
        self.budget = s.weighted([(2, s.int(2, 8)), (5, s.int(8, 30)), (2, s.int(30, 70))])
        self.thms = [t[0] for t in case['thms']]
        self.cnts = ['section', 'subsection', 'equation', 'figure', 'table'] + [c[0] for c in case['cnts']] + \
            [t[0] for t in case['thms'] if t[1] == 'own']
        if case['cls'] == 'book':
            self.cnts.append('chapter')
        self.appended = False
        # (LaTeX's and amsmath's rows without number differ in whether they reset)
        self.eqw = 'equation' in [c[1] for c in case['cnts']] + [t[2] for t in case['thms'] if t[1] == 'own']

    def tag(self, k):
        self.n += 1
        return '%s%d' % (k, self.n)

    def counter_op(self, enum=None):
        s = self.s
        name = enum if enum and s.bool(2, 3) else s.choice(self.cnts)
        op = s.choice(['setcounter', 'addtocounter', 'stepcounter', 'refstepcounter'])
        v = s.weighted([(6, s.int(0, 9)), (1, -s.int(1, 3)), (1, s.int(10, 40))])
        if name == 'chapter':
            v = abs(v) + (1 if op == 'setcounter' else 0)
        how = s.weighted([(4, ''), (1, s.choice(self.cnts))])
        if name == 'chapter':
            how = ''
        return ['cnt', op, name, v, how]

    def blocks(self, top, depth, ctx):
        out = []
        s = self.s
        k = self.budget if top else s.int(1, 3)
        for _ in range(k):
            if self.budget <= 0:
                break
            self.budget -= 1
            out += self.block(top, depth, ctx)
        return out

    def block(self, top, depth, ctx):
        s = self.s
        w = [(3, 'eq'), (2, 'arr'), (2, 'thm' if self.thms else 'eq'), (2, 'cnt'), (2, 'probe'), (1, 'the')]
        if top:
            w += [(7, 'sec'), (1, 'renew')]
            if not self.appended:
                w.append((1, 'app'))
        if not ctx.get('float') and not ctx.get('fn'):
            w.append((2, 'fl'))
        if ctx.get('lists', 0) < 6 and not ctx.get('fn'):
            w += [(3, 'enum'), (1, 'ul')]
        if depth < 4:
            w.append((1, 'grp'))
        if not ctx.get('fn') and not ctx.get('float'):
            w.append((1, 'fn'))
        k = s.weighted(w)
        if ctx.get('fn') and k in ('probe', 'the'):
            k = 'eq'
        if k == 'sec':
            names = SECS if self.case['cls'] == 'book' else [x for x in SECS if x != 'chapter']
            name = s.weighted([(1, 'part'), (3, 'chapter'), (6, 'section'), (4, 'subsection'), (2, 'subsubsection'), (1, 'paragraph'),
                               (1, 'subparagraph')])
            if name not in names:
                name = 'section'
            return [['sec', name, s.bool(1, 5), s.bool(1, 6), self.tag('s')]]
        if k == 'app':
            self.appended = True
            out = [['app']]
            if self.case['cls'] == 'book':
                out.append(['sec', 'chapter', False, False, self.tag('s')])
            return out
        if k == 'renew':
            return [['renew', s.choice([c for c in self.cnts if c != 'chapter']), s.choice(REPS), s.choice(['', '', 'thesection', 'x'])]]
        if k == 'eq':
            kinds = ['equation', 'equation', 'equation', 'displaymath', 'short', 'macro', 'env']
            if self.case['ams']:
                kinds += ['equation*', 'cases', 'split']
            return [['eq', s.choice(kinds), self.tag('e'), s.bool(1, 5)]]
        if k == 'arr':
            envs = ['eqnarray', 'eqnarray', 'eqnarray', 'eqnarray*']
            if self.case['ams']:
                envs += ['align', 'align*', 'gather', 'flalign', 'multline']
            env = s.choice(envs)
            if env == 'eqnarray*' and self.eqw:
                env = 'eqnarray'
            rows = []
            for i in range(s.int(1, 4)):
                rows.append([self.tag('r'), s.weighted([(5, 0), (2, 1), (1, 2)]) if not env.startswith('mul') and not self.eqw else 0,
                             s.choice(['\\\\', '\\\\', '\\\\*', '\\\\[2pt]']), s.bool(1, 8)])
            return [['arr', env, rows, env == 'eqnarray' and s.bool(1, 6)]]
        if k == 'fl':
            env = s.choice(['figure', 'table', 'figure*', 'table*'])
            caps = [[s.bool(1, 6), s.bool(1, 5), self.tag('c')] for _ in range(s.weighted([(1, 0), (6, 1), (2, 2)]))]
            return [['fl', env, caps, s.int(0, 2), self.blocks(False, depth + 1, dict(ctx, float=1)) if s.bool(1, 4) else []]]
        if k == 'thm':
            return [['thm', s.choice(self.thms), s.bool(1, 4), self.tag('t'), s.bool(1, 8),
                     self.blocks(False, depth + 1, ctx) if s.bool(1, 2) and depth < 5 else []]]
        if k in ('enum', 'ul'):
            if k == 'enum' and ctx.get('enums', 0) >= 4:
                k = 'ul'
            c = dict(ctx, lists=ctx.get('lists', 0) + 1)
            if k == 'enum':
                c['enums'] = ctx.get('enums', 0) + 1
                # (the innermost list is the one whose counter may be set)
                c['pure'] = ctx.get('enums', 0) == ctx.get('lists', 0)
            first = [self.counter_op(ENUM[c['enums'] - 1])] if k == 'enum' and s.bool(1, 8) else []
            items = []
            for _ in range(s.int(1, 4)):
                t = self.tag('i')
                body = self.blocks(False, depth + 1, c) if s.bool(1, 2) and depth < 6 else []
                if k == 'enum' and s.bool(1, 6):
                    body.append(self.counter_op(ENUM[c['enums'] - 1]))
                if k == 'enum' and s.bool(1, 6):
                    body.append(['probe', 'arabic', ENUM[c['enums'] - 1]])
                items.append([s.weighted([(12, 0), (1, 1), (1, 2)] if k == 'enum' else [(6, 0), (3, 1), (1, 2)]), t, body])
            return [['enum', first, items]] if k == 'enum' else [['ul', s.choice(['itemize', 'description']), items]]
        if k == 'cnt':
            return [self.counter_op()]
        if k == 'probe':
            return [['probe', s.choice(REPS), s.choice(self.cnts)]]
        if k == 'the':
            return [['the', s.choice(self.cnts)]]
        if k == 'grp':
            return [['grp', s.choice(['{}', 'quote', 'center', 'minipage']), self.blocks(False, depth + 1, ctx)]]
        return [['fn', self.blocks(False, depth + 1, dict(ctx, fn=1))]]


def gen(s, tier):
    cls = s.choice(['book', 'article'])
    case = {'cls': cls, 'depth': s.weighted([(4, 2), (2, s.int(-2 if cls == 'book' else 0, 6)), (1, 6)]), 'ams': s.bool(1, 3), 'thmpkg': s.bool(1, 3), 'cnts': [],
            'thms': [], 'nw': None}
    base = ['section', 'subsection', 'equation', 'figure'] + (['chapter'] if cls == 'book' else [])
    names = s.sample(['foo', 'bar', 'baz', 'q', 'the-x', 'a1'], s.int(0, 3))
    for nm in names:
        case['cnts'].append([nm, s.choice(base + [c[0] for c in case['cnts']] * 2 + ['enumi']) if s.bool(2, 3) else ''])
    for nm in s.sample(['thm', 'lem', 'theorem', 'cor', 'my-rem', 'defn'], s.weighted([(1, 0), (2, 1), (3, 2), (2, 4)])):
        own = [t[0] for t in case['thms'] if t[1] == 'own']
        k = s.choice(['own', 'own', 'shared', 'star'])
        if k == 'shared' and not own and not case['cnts']:
            k = 'own'
        if k == 'star' and not case['thmpkg']:
            k = 'own'
        w = ''
        if k == 'own' and s.bool(1, 2):
            w = s.choice(base + own * 2 + [c[0] for c in case['cnts']])
        if k == 'shared':
            w = s.choice(own * 2 + [c[0] for c in case['cnts']] + ['equation'])
        case['thms'].append([nm, k, w])
    if case['ams'] and s.bool(1, 3):
        case['nw'] = s.choice([['equation', 'section'], ['figure', 'section'], ['equation', 'subsection'], ['table', 'section']])
    case['body'] = G(s, case).blocks(True, 0, {})
    for _ in range(200):
        m = Model(case)
        try:
            m.run()
            return case
        except Discard:
            return None
        except Range:
            m.blame[1 if m.blame[0] == 'probe' else 2] = 'arabic'
    return None


def corpus(tier):
    for i in range(1, 5000, 125):
        yield {'reps': [i, min(i + 125, 5000)]}


# ---------------------------------------------------------------- model

class Model:
    def __init__(self, case):
        self.case = case
        self.value, self.within, self.fmt = {}, {}, {}
        self.out, self.shown, self.marks = [], [], []
        self.blame = None
        book = case['cls'] == 'book'
        N = self.new
        N('part', '')
        if book:
            N('chapter', '')
            N('section', 'chapter', ['thechapter', '.', 'arabic:section'])
        else:
            N('section', '')
        for a, b in zip(SECS[2:], SECS[3:]):
            N(b, a, ['the' + a, '.', 'arabic:' + b])
        for f in ('equation', 'figure', 'table'):
            N(f, 'chapter' if book else '', ['chap?', 'arabic:' + f] if book else ['arabic:' + f])
        for e in ENUM:
            N(e, '')
        for n, w in case['cnts']:
            N(n, w)
        for n, k, w in case['thms']:
            if k == 'own':
                N(n, w, ['the' + w, '.', 'arabic:' + n] if w else None)
        if case['nw']:
            t, c = case['nw']
            self.within[t] = c
            self.fmt[t] = ['the' + c, '.', 'arabic:' + t]

    def new(self, n, within, fmt=None):
        self.value[n] = 0
        self.within[n] = within
        self.fmt[n] = fmt or ['arabic:' + n]

    def step(self, n):
        self.value[n] += 1
        self.reset(n)

    def reset(self, n):
        for m, w in self.within.items():
            if w == n:
                if self.value[m]:
                    self.marks.append('reset')
                    if any(x == m for x in self.within.values()):
                        self.marks.append('within_chain')
                self.value[m] = 0
                self.reset(m)

    def the(self, n):
        out = ''
        for p in self.fmt[n]:
            if p == 'chap?':
                if self.value['chapter'] <= 0 and self.fmt['chapter'] != ['arabic:chapter']:
                    raise Discard
                out += self.the('chapter') + '.' if self.value['chapter'] > 0 else ''
            elif isinstance(p, list):
                self.blame = p[0]
                out += represent(p[0][2], self.value[n])
            elif p.startswith('the') and p[3:] in self.fmt:
                out += self.the(p[3:])
            elif ':' in p:
                rep, c = p.split(':')
                out += represent(rep, self.value[c])
            else:
                out += p
        return out

    def num(self, kind, tag, n):
        self.out.append([kind, tag, self.the(n) if n else None])

    def run(self):
        self.blocks(self.case['body'], 0)
        return self

    def blocks(self, bs, enums):
        for b in bs:
            self.block(b, enums)

    def block(self, b, enums):
        k = b[0]
        if k == 'sec':
            name, star, toc, tag = b[1:]
            if star or LEVEL[name] > self.case['depth']:
                self.num('sec', tag, None)
                self.marks.append('sec_starred' if star else 'sec_deep')
            else:
                self.step(name)
                self.num('sec', tag, name)
                self.marks.append('sec_numbered')
        elif k == 'app':
            self.marks.append('appendix')
            c = 'chapter' if self.case['cls'] == 'book' else 'section'
            self.value[c] = 0
            self.value['section' if c == 'chapter' else 'subsection'] = 0
            self.fmt[c] = ['Alph:' + c]
            self.blame = ['renewA', 0, 0]
        elif k == 'renew':
            self.marks.append('renew')
            self.fmt[b[1]] = ([b[3], '-'] if b[3] == 'thesection' and b[1] != 'section' else ['x'] if b[3] else []) + [[b]]
        elif k == 'eq':
            if b[1] in ('displaymath', 'short', 'equation*'):
                self.marks.append('equation_star')
                self.num('eq', b[2], None)
            else:
                self.step('equation')
                self.num('eq', b[2], 'equation')
                self.marks.append('equation')
                if b[1] in ('cases', 'macro'):
                    self.marks.append(b[1])
                if b[3]:
                    self.marks.append('nullarray')
        elif k == 'arr':
            env, rows, trail = b[1:]
            if env == 'multline':
                self.step('equation')
            for i, (tag, non, sep, arr) in enumerate(rows):
                n = None
                if env == 'multline':
                    # one number, wherever it is shown
                    self.num('mrow' if i == 0 else 'mrow2', tag, 'equation' if i == 0 else None)
                    continue
                if not env.endswith('*'):
                    if non:
                        self.marks.append('nonumber')
                    else:
                        self.step('equation')
                        n = 'equation'
                        self.marks.append('eqnarray_row' if env == 'eqnarray' else 'align_row')
                    if i:
                        s = rows[i - 1][2]
                        self.marks.append('row_star' if '*' in s else 'row_space' if '[' in s else '')
                self.num('row', tag, n)
            if trail:
                self.step('equation')
                self.marks.append('row_trailing')
        elif k == 'fl':
            env, caps, tab, body = b[1:]
            self.blocks(body, enums)
            c = env.rstrip('*')
            for star, toc, tag in caps:
                if star:
                    self.num('cap', tag, None)
                    self.marks.append('caption_star')
                else:
                    self.step(c)
                    self.num('cap', tag, c)
                    self.marks += ['caption', c]
            if len(caps) > 1:
                self.marks.append('two_captions')
        elif k == 'thm':
            name, title, tag, wrap, body = b[1:]
            kind, w = [(t[1], t[2]) for t in self.case['thms'] if t[0] == name][0]
            self.marks.append('thm_' + kind)
            if kind == 'star':
                self.num('thm', tag, None)
            else:
                c = name if kind == 'own' else w
                if kind == 'own' and w:
                    self.marks.append('thm_within')
                self.step(c)
                self.num('thm', tag, c)
            self.blocks(body, enums)
        elif k == 'enum':
            c = ENUM[enums]
            self.value[c] = 0
            self.blocks(b[1], enums + 1)
            for term, tag, body in b[2]:
                if term:
                    self.num('item', tag, None)
                    self.marks.append('enum_term' if term == 1 else 'enum_empty_term')
                else:
                    self.step(c)
                    self.out.append(['item', tag, str(self.value[c])])
                    self.marks.append('enum_item')
                    if enums:
                        self.marks.append('enum_nested')
                    if enums > 2:
                        self.marks.append('enum_deep')
                self.blocks(body, enums + 1)
        elif k == 'ul':
            for term, tag, body in b[2]:
                self.blocks(body, enums)
        elif k == 'cnt':
            op, n, v, how = b[1:]
            v = self.value[how] if how else v
            if how:
                self.marks.append('value')
            self.marks.append(op)
            if op == 'setcounter':
                self.value[n] = v
            elif op == 'addtocounter':
                self.value[n] += v
            else:
                self.step(n)
        elif k == 'probe':
            self.blame = b
            self.shown.append(represent(b[1], self.value[b[2]]))
            self.marks.append(b[1])
        elif k == 'the':
            self.shown.append(self.the(b[1]))
            self.marks.append('the')
        elif k == 'grp':
            self.blocks(b[2], enums)
        elif k == 'fn':
            self.marks.append('footnote')
            self.blocks(b[1], enums)


# ---------------------------------------------------------------- source

def T(tag, case):
    return tag + case.get('deco', {}).get(tag, '')


def blocks_source(bs, case):
    return ''.join(source_of(b, case) for b in bs)


def source_of(b, case):
    k = b[0]
    if k == 'sec':
        return '\n\\%s%s%s{%s}\n' % (b[1], '*' if b[2] else '', '[short]' if b[3] else '', T(b[4], case))
    if k == 'app':
        return '\n\\appendix\n'
    if k == 'renew':
        pre = '\\thesection-' if b[3] == 'thesection' and b[1] != 'section' else 'x' if b[3] else ''
        if not b[1].isalpha():
            return '\\expandafter\\renewcommand\\csname the%s\\endcsname{%s\\%s{%s}}%%\n' % (b[1], pre, b[2], b[1])
        return '\\renewcommand{\\the%s}{%s\\%s{%s}}\n' % (b[1], pre, b[2], b[1])
    if k == 'eq':
        t = T(b[2], case)
        if b[3]:
            t += '\\begin{array}{cc}a&b\\\\c&d\\\\*e\\end{array}'
        if b[1] == 'short':
            return '\\[%s\\]\n' % t
        if b[1] == 'macro':
            return '\\mkeq{%s}\n' % t
        if b[1] == 'env':
            return '\\begin{myeq}%s\\end{myeq}\n' % t
        if b[1] == 'cases':
            return '\\begin{equation}%s\\begin{cases}a&b\\\\c&d\\\\e&f\\end{cases}\\end{equation}\n' % t
        if b[1] == 'split':
            return '\\begin{equation}\\begin{split}%s&b\\\\c&d\\end{split}\\end{equation}\n' % t
        return '\\begin{%s}%s\\end{%s}\n' % (b[1], t, b[1])
    if k == 'arr':
        env, rows, trail = b[1:]
        out = '\\begin{%s}' % env
        for i, (tag, non, sep, arr) in enumerate(rows):
            out += T(tag, case) + ('\\begin{array}{c}u\\\\v\\end{array}' if arr else '')
            out += ['', ' \\nonumber ', ' \\nonumber\\nonumber '][non]
            if env.startswith('eqn'):
                out += '&=&x'
            elif env.startswith(('al', 'fl')):
                out += '&=x'
            if i < len(rows) - 1:
                out += sep + '\n'
        return out + ('\\\\' if trail else '') + '\\end{%s}\n' % env
    if k == 'fl':
        env, caps, tab, body = b[1:]
        out = '\\begin{%s}%s' % (env, '[ht]' if tab == 1 else '') + blocks_source(body, case)
        if tab:
            out += '\\begin{tabular}{cc}a&b\\\\c&d\\end{tabular}\n'
        for star, toc, tag in caps:
            out += '\\caption%s%s{%s}%s' % ('*' if star else '', '[short]' if toc and not star else '', T(tag, case),
                                          case.get('post', {}).get(tag, ''))
        return out + '\\end{%s}\n' % env
    if k == 'thm':
        name, title, tag, wrap, body = b[1:]
        return '\\begin{%s}%s%s %s\\end{%s}\n' % (name, '[Title]' if title else '', T(tag, case), blocks_source(body, case), name)
    if k == 'enum':
        return '\\begin{enumerate}' + blocks_source(b[1], case) + ''.join(
            '\\item%s %s %s' % (('', '[*]', '[]')[t], T(tag, case), blocks_source(body, case)) for t, tag, body in b[2]) + '\\end{enumerate}\n'
    if k == 'ul':
        return '\\begin{%s}' % b[1] + ''.join(
            '\\item%s %s %s' % (('', '[*]', '[]')[t], T(tag, case), blocks_source(body, case)) for t, tag, body in b[2]) + '\\end{%s}\n' % b[1]
    if k == 'cnt':
        op, n, v, how = b[1:]
        if op in ('stepcounter', 'refstepcounter'):
            return '\\%s{%s}\n' % (op, n)
        return '\\%s{%s}{%s}\n' % (op, n, '\\value{%s}' % how if how else v)
    if k == 'probe':
        return '<\\%s{%s}>\n' % (b[1], b[2])
    if k == 'the':
        if not b[1].isalpha():
            return '<\\csname the%s\\endcsname>\n' % b[1]
        return '<\\the%s>\n' % b[1]
    if k == 'raw':
        return b[1]
    if k == 'grp':
        body = blocks_source(b[2], case)
        if b[1] == '{}':
            return '{\\small ' + body + '}\n'
        return '\\begin{%s}%s%s\\end{%s}\n' % (b[1], '{4cm}' if b[1] == 'minipage' else '', body, b[1])
    return 'x\\footnote{%s}\n' % blocks_source(b[1], case)


def source(case):
    if 'reps' in case:
        lo, hi = case['reps']
        body = ''.join('\\setcounter{q}{%d}<%s>' % (v, ','.join('\\%s{q}' % r for r in (REPS if v < 27 else REPS[:3])))
                       for v in range(lo, hi))
        return '\\documentclass{article}\\newcounter{q}\\begin{document}%s\\end{document}' % body
    out = '\\documentclass{%s}\n' % case['cls']
    if case['ams']:
        out += '\\usepackage{amsmath}\n'
    if case['thmpkg']:
        out += '\\usepackage{amsthm}\n'
    for n, w in case['cnts']:
        out += '\\newcounter{%s}%s\n' % (n, '[%s]' % w if w else '')
    for n, k, w in case['thms']:
        if k == 'star':
            out += '\\newtheorem*{%s}{Cap}\n' % n
        elif k == 'shared':
            out += '\\newtheorem{%s}[%s]{Cap}\n' % (n, w)
        else:
            out += '\\newtheorem{%s}{Cap}%s\n' % (n, '[%s]' % w if w else '')
    if case['nw']:
        out += '\\numberwithin{%s}{%s}\n' % tuple(case['nw'])
    out += case.get('pre', '')
    out += '\\newcommand\\mkeq[1]{\\begin{equation}#1\\end{equation}}\n\\newenvironment{myeq}{\\begin{equation}}{\\end{equation}}\n'
    return out + '\\begin{document}\nStart\n' + blocks_source(case['body'], case) + '\n\\end{document}\n'


# ---------------------------------------------------------------- monitor

EQS = ('equation', 'displaymath', 'equation*')
ARRS = ('eqnarray', 'eqnarray*', 'align', 'align*', 'gather', 'flalign', 'multline')


def kind(n):
    name = n.nodeName
    if name in SECS:
        return 'sec'
    if name in EQS:
        return 'eq'
    if name == 'caption':
        return 'cap'
    if name == 'thmenv':
        return 'thm'
    if name == 'item' and n.parentNode is not None and n.parentNode.nodeName == 'enumerate':
        return 'item'
    if name == 'ArrayRow' and n.parentNode is not None and n.parentNode.nodeName in ARRS:
        return 'row'
    return None


def walk(node, out):
    at = getattr(node, 'attributes', None)
    if at:
        for k, v in at.items():
            if k != 'self' and getattr(v, 'nodeType', None) is not None and not isinstance(v, str):
                walk(v, out)
    for c in node.childNodes:
        if c.nodeType == 1 and kind(c):
            out.append(c)
        if c.nodeType != 3:
            walk(c, out)
    return out


def run(case, obs):
    from plasTeX.TeX import TeX
    tex = TeX()
    doc = tex.ownerDocument
    src = source(case)
    tex.input(src)
    obs.hit('documents')
    if 'reps' in case:
        tex.parse()
        got = re.findall('<([^>]*)>', str(doc.textContent))
        want = [','.join(represent(r, v) for r in (REPS if v < 27 else REPS[:3])) for v in range(*case['reps'])]
        obs.nontrivial = True
        obs.hit('rep_values', len(want))
        for g, w in zip(got, want):
            if g != w:
                return 'representations %s instead of %s' % (g, w)
        return None if len(got) == len(want) else '%d displays instead of %d' % (len(got), len(want))
    doc.config['document']['sec-num-depth'] = case['depth']
    m = Model(case).run()
    tex.parse()
    obs.hit(case['cls'])
    if case['nw']:
        obs.hit('numberwithin')
    if case['ams']:
        obs.hit('amsmath')
    if case['thmpkg'] and case['thms']:
        obs.hit('amsthm')
    for x in m.marks:
        if x:
            obs.hit(x)
    obs.nontrivial = len(m.out) + len(m.shown) > 1
    got = []
    for n in walk(doc, []):
        k = kind(n)
        text = str((n.attributes['title'] if k == 'sec' else n).textContent).strip()
        t = re.match(r'[a-z]\d+', text)
        ref = n.ref
        got.append([k, t.group(0) if t else text[:20], None if ref is None else dashes(getattr(ref, 'textContent', ref))])
        obs.seen('numbers', '%s %s' % (k, got[-1][2]))
    want = m.out
    for i in range(max(len(got), len(want))):
        if i >= len(got) or i >= len(want):
            return '%d numbered objects instead of %d: %s' % (len(got), len(want), (got + want)[min(len(got), len(want)):][:4])
        g, w = got[i], want[i]
        if w[0] in ('mrow', 'mrow2'):
            if g[:2] != ['row', w[1]] or g[2] != w[2]:
                return 'row %s instead of %s' % (g, w)
            continue
        if g == w:
            continue
        if w[0] == 'sec' and g[:2] == w[:2] and w[2] is not None and g[2] is not None and part(case['body'], w[1]):
            if g[2] in (w[2], roman(int(w[2])).upper()):
                continue
        return 'object %d: got %s %r number %s instead of %s %r number %s' % tuple([i] + g + w)
    shown = [dashes(x) for x in re.findall('<([^>]*)>', str(doc.textContent))]
    if shown != m.shown:
        return 'displayed counters are %s instead of %s' % (shown, m.shown)
    for n, v in m.value.items():
        if n in ENUM:
            continue
        c = doc.context.counters.get(n)
        if c is None or c.value != v:
            return 'counter %s is %s instead of %d at the end' % (n, c and c.value, v)
    return None


def dashes(t):
    return str(t).replace('\u2014', '---').replace('\u2013', '--')


def part_any(body, tag):
    return part(body, tag)


def part(body, tag):
    return any(b[0] == 'sec' and b[1] == 'part' and b[4] == tag for b in body)


def show(case):
    return 'depth=%s\n%s' % (case.get('depth'), source(case))
