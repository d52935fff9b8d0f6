r"""C05: arguments are delimited, typed and bound as the signature declares; numeric literals denote TeX's values.

Two kinds of executions, both through the document flow (TeX().input(...).parse()):
 * a macro class is made from a generated signature, a conforming call of it is written from a list of intended
   values; after the parse, `attributes` of the node must be exactly those values, and the text after the call (and
   a register assignment placed there) must be untouched;
 * a numeric literal (integer, decimal, dimension, glue, mu) is written from an intended exact value, read by
   readInteger/readDimen/..., by a typed unbraced argument, or by a typed braced argument; the value read must be
   TeX's and the text after the literal untouched.
The intended values are built together with the source, never computed by reading the source back.
"""
from fractions import Fraction as F

ID = 'C05'
RULE = 'a call counts if it has at least one present argument; a literal counts if its value is not 0'
QUICK = (24000, 40)
THOROUGH = (400000, 780)
REQUIRED = ['calls', 'literals', 'absent', 'present', 'spec_mod', 'spec_eq', 'spec_[]', 'spec_()', 'spec_<>', 'spec_{}',
            'spec_mand', 'spec_tok', 'type_none', 'type_str', 'type_int', 'type_float', 'type_dimen', 'type_list',
            'type_dict', 'type_nox', 'type_cs', 'type_Tok', 'type_XTok', 'type_url', 'type_Number', 'type_Dimen',
            'type_Glue', 'nested_bracket', 'braced_delim', 'lit_int', 'lit_dim', 'lit_glue', 'lit_mudim', 'lit_muglue',
            'lit_float', 'radix_oct', 'radix_hex', 'radix_chr', 'radix_dec', 'reg_int', 'reg_dim', 'reg_mult', 'unit_true',
            'fil', 'mode_direct', 'mode_arg', 'mode_braced', 'assign_after', 'second_use', 'derived_class']
ASSUMPTIONS = ['a number directly followed by an integer register multiplies it (fixed by the existing tests): out of domain',
               'em and ex have a nominal size (11pt, 5pt), only ratios of them are judged',
               'after an absent trailing optional argument blanks may be skipped (as \\@ifnextchar does)',
               'lengths agree with TeX within 1sp (TeX truncates, plasTeX keeps fractions)']

SETUP = (r'\newcount\ca \ca=17 \newcount\cb \cb=-4 \newdimen\da \da=3pt \newdimen\db \db=-2.5pt '
         r'\newskip\sa \sa=5pt plus 2fil minus 1pt \newskip\sb \sb=-1.5pt plus 3pt '
         r'\newcounter{lc}\setcounter{lc}{9}\def\mx{MX}\def\mtwo#1{P#1Q}\newcommand{\inner}[2][D]{I#1J#2K}'
         r'\def\nd{27}\def\nm{-8}\def\upt{pt}')
PT = 65536
UNITS = {'pt': F(1), 'pc': F(12), 'in': F(7227, 100), 'bp': F(7227, 7200), 'cm': F(7227, 254), 'mm': F(7227, 2540),
         'dd': F(1238, 1157), 'cc': F(14856, 1157), 'sp': F(1, PT), 'ex': F(5), 'em': F(11)}
MAXDIM = (1 << 30) - 1
REGD = {r'\da': F(3), r'\db': F(-5, 2)}
REGS = {r'\sa': (F(5), (F(2), 'fil'), (F(1), 'pt')), r'\sb': (F(-3, 2), (F(3), 'pt'), None)}
REGI = {r'\ca': 17, r'\cb': -4, r'\value{lc}': 9}


def ratstr(s, src_places=3):
    """(source, value) of an unsigned decimal constant."""
    k = s.weighted([(4, 'int'), (5, 'frac'), (2, 'dot'), (1, 'tail'), (2, 'comma')])
    n = s.weighted([(6, s.int(0, 9)), (2, s.int(0, 99)), (1, s.int(0, 400))])
    if k == 'int':
        return str(n), F(n)
    d = s.int(1, src_places)
    f = s.int(0, 10 ** d - 1)
    fs = str(f).zfill(d)
    if k == 'dot':
        return '.' + fs, F(f, 10 ** d)
    if k == 'tail':
        return '%d.' % n, F(n)
    return '%d%s%s' % (n, ',' if k == 'comma' else '.', fs), n + F(f, 10 ** d)


class Lit(object):
    """A numeric literal: src, val, ends ('open': more digits would continue it; 'kw': letters might;
    'closed': complete), tags."""

    def __init__(self, s):
        self.s = s
        self.tags = []

    def signs(self):
        t = self.s.weighted([(8, ''), (4, '-'), (1, '--'), (1, '+'), (1, '- +-'), (1, '-+ '), (1, '---'), (1, ' -')])
        return t, (-1) ** t.count('-')

    def integer(self, regs=True):
        """(src, val, stops) where stops(ch) tells whether the character ch may follow without a space."""
        s = self.s
        sg, v = self.signs()
        k = s.weighted([(7, 'dec'), (2, 'oct'), (3, 'hex'), (3, 'chr'), (2 if regs else 0, 'reg'), (1, 'mac')])
        self.tags.append('radix_' + k if k in ('dec', 'oct', 'hex', 'chr') else 'reg_int' if k == 'reg' else 'mac_int')
        if k == 'dec':
            n = s.weighted([(5, s.int(0, 20)), (3, s.int(0, 5000)), (1, s.int(0, 2 ** 31 - 1))])
            return sg + str(n).zfill(s.weighted([(8, 1), (1, 4)])), v * n, '0123456789'
        if k == 'oct':
            n = s.int(0, 5000)
            return sg + "'%o" % n, v * n, '01234567'
        if k == 'hex':
            n = s.weighted([(3, s.int(0, 15)), (3, s.int(0, 70000))])
            return sg + '"%X' % n, v * n, '0123456789ABCDEF'
        if k == 'chr':
            c = s.choice(['a', 'Z', '0', '*', '[', '\\a', '\\%', '\\{', '\\}', '\\$', '\\\\', '\\Q', "'", '"', '`', '+', '-'])
            if c.startswith('\\') and c[1:].isalpha():
                # a control word swallows the blanks that follow: keep letters away from it
                return sg + '`' + c, v * ord(c[1]), 'LETTERS'
            return sg + '`' + c, v * ord(c[-1]), ''
        if k == 'mac':
            m, w = s.choice([('\\nd', 27), ('\\nm', -8)])
            n = s.weighted([(3, None), (1, s.int(1, 9))])
            if n is not None and m == '\\nd':
                return sg + '%d\\nd ' % n, v * (n * 100 + 27), '0123456789'
            return sg + m + ' ', v * w, '0123456789'
        r = s.choice(sorted(REGI) + ['\\da', '\\sa'])
        if r in REGI:
            if r.endswith('}'):     # \\value is its digits in plasTeX
                return sg + r, v * REGI[r], '0123456789'
            return sg + r + ' ', v * REGI[r], 'REG'
        w = REGD[r] if r in REGD else REGS[r][0]
        return sg + r + ' ', v * int(w * PT), 'REG'

    def unit(self, fil=False, mu=False):
        s = self.s
        if fil and s.bool(2, 5):
            self.tags.append('fil')
            return s.choice(['fil', 'fill', 'filll', 'Fil', 'FILL']), None
        if mu:
            return s.choice(['mu', 'MU', 'mU']), F(1, PT)
        u = s.choice(sorted(UNITS))
        w = s.weighted([(6, u), (1, u.upper()), (1, u.capitalize())])
        t = ''
        if u not in ('ex', 'em') and s.bool(1, 6):
            self.tags.append('unit_true')
            t = s.choice(['true', 'true ', 'True', 'TRUE '])
        return t + w, UNITS[u]

    def dimen(self, fil=False, mu=False, sign=True, regs=True):
        """(src, value in pt or (amount, order), stops)"""
        s = self.s
        sg, v = self.signs() if sign else ('', 1)
        k = s.weighted([(8, 'lit'), (2 if regs and not mu else 0, 'reg'), (2 if regs and not mu else 0, 'mult'),
                        (1, 'radix'), (1, 'ireg' if regs else 'lit')])
        if k == 'reg' and not (fil and False):
            self.tags.append('reg_dim')
            r = s.choice([r'\da', r'\db', r'\sa', r'\sb'])
            w = REGD[r] if r in REGD else REGS[r][0]
            return sg + r + ' ', v * w, 'REG'
        if k == 'mult':
            self.tags.append('reg_mult')
            r = s.choice([r'\da', r'\db', r'\sa', r'\sb'])
            w = REGD[r] if r in REGD else REGS[r][0]
            a, f = ratstr(s)
            return sg + a + s.choice(['', ' ']) + r + ' ', v * f * w, 'REG'
        if k == 'radix':
            n = s.int(0, 60)
            a, f = s.choice([("'%o" % n, F(n)), ('"%X' % n, F(n)), ('`A', F(65))])
            self.tags.append('radix_dim')
        elif k == 'ireg':
            r = s.choice(sorted(REGI))
            a, f = r + ('' if r.endswith('}') else ' '), F(REGI[r])
            self.tags.append('reg_factor')
        else:
            a, f = ratstr(s)
        u, size = self.unit(fil, mu)
        if u.lower() == 'sp':
            f = f.numerator // f.denominator if '.' in a or ',' in a else f
            if '.' in a or ',' in a:
                a, f = str(f), F(f)
        sep = s.weighted([(4, ''), (2, ' ')])
        if a.startswith('"') and not sep and u[0] in 'ABCDEF':
            sep = ' '
        if size is None:
            return sg + a + sep + u, (v * f, u.lower()), 'L' if u.lower() != 'filll' else ''
        if abs(f * size * PT) > MAXDIM:
            return None
        return sg + a + sep + u, v * f * size, ''

    def glue(self, mu=False):
        s = self.s
        sg, v = self.signs()
        if not mu and s.bool(1, 6):
            self.tags.append('reg_glue')
            r = s.choice([r'\sa', r'\sb'])
            w = REGS[r]
            neg = lambda x: x if x is None else (v * x[0], x[1])
            return sg + r + ' ', (v * w[0], neg(w[1]), neg(w[2])), 'REG'
        d = self.dimen(mu=mu, sign=False, regs=False)
        if d is None:
            return None
        src, dim, stops = sg + d[0], v * d[1], d[2]
        parts = [None, None]
        kwgap = ''
        for i, kw in enumerate(['plus', 'minus']):
            if s.bool(3, 5):
                d = self.dimen(fil=True, mu=mu, regs=s.bool(1, 2))
                if d is None:
                    return None
                src += s.choice(['', ' ']) if not src.endswith(' ') else ''
                src += s.weighted([(5, kw), (1, kw.upper())]) + s.choice(['', ' ']) + d[0]
                parts[i] = d[1] if isinstance(d[1], tuple) else (d[1], 'pt')
                stops = d[2]
        if parts[1] is None:
            kwgap = 'M' if parts[0] is not None else 'PM'
        self.tags.append('glue_parts_%d' % sum(p is not None for p in parts))
        return src, (dim, parts[0], parts[1]), stops + ' ' + kwgap


# ------------------------------------------------------------------ argument values
class Arg(object):
    def __init__(self, gen):
        self.g = gen
        self.s = gen.s
        self.n = 0

    def word(self):
        self.g.n += 1
        return 'w%d' % self.g.n + self.s.choice(['', 'x', 'plus', 'e'])

    def pieces(self, depth, inside, elems=True, sep=''):
        """(source, text); `inside`: delimiters of the argument, `sep`: characters to avoid outside braces."""
        s = self.s
        out = []
        for _ in range(s.int(1, 3)):
            k = s.weighted([(6, 'word'), (3 if depth else 0, 'group'), (2 if depth else 0, 'pair'), (1, 'lone'), (1, 'mac'),
                            (2 if depth and elems else 0, 'bold'), (1 if depth else 0, 'mtwo'),
                            (1 if depth else 0, 'inner'), (1, 'delim')])
            if k == 'word':
                w = self.word()
                out.append((w, w))
            elif k == 'group':
                a, b = self.pieces(depth - 1, '', elems)
                out.append(('{' + a + '}', b))
                if any(c in a for c in inside):
                    self.g.tags.append('braced_delim')
            elif k == 'pair':
                p = s.choice(['[]', '()', '<>'])
                a, b = self.pieces(depth - 1, inside if inside == p else p + inside if not inside else inside, elems, sep)
                if p == inside:
                    self.g.tags.append('nested_bracket')
                out.append((p[0] + a + p[1], p[0] + b + p[1]))
            elif k == 'lone':
                c = s.choice([x for x in '[]()<>*+=,;' if x not in inside and x not in sep] or ['!'])
                if c == '<' or c == '>':
                    out.append((c, c))
                else:
                    out.append((c, c))
            elif k == 'delim' and inside and not sep:
                c = s.choice(list(inside[:2]))
                out.append(('{' + c + '}', c))
                self.g.tags.append('braced_delim')
            elif k == 'delim' and sep:
                c = s.choice(list(sep[:2]))
                w = self.word()
                out.append(('{' + w + c + w + '}', w + c + w))
            elif k == 'bold':
                a, b = self.pieces(depth - 1, '', elems)
                out.append(('\\' + s.choice(['textbf', 'textit', 'mbox']) + '{' + a + '}', b))
            elif k == 'mtwo':
                a, b = self.pieces(depth - 1, '', elems, sep)
                out.append(('\\mtwo{' + a + '}', 'P' + b + 'Q'))
            elif k == 'inner' and '[' not in inside:
                a, b = self.pieces(depth - 1, '', elems, sep)
                if s.bool():
                    w = self.word()
                    out.append(('\\inner[' + w + ']{' + a + '}', 'I' + w + 'J' + b + 'K'))
                else:
                    out.append(('\\inner{' + a + '}', 'IDJ' + b + 'K'))
            else:
                out.append(('\\mx{}', 'MX'))
        src, txt = out[0]
        for a, b in out[1:]:
            g = s.choice(['', ' ', '\n'])
            src += g + a
            txt += (' ' if g else '') + b
        return src, txt

    def braced(self, typ, inside):
        """(source without delimiters, expectation)"""
        s = self.s
        lit = Lit(s)
        pad = s.weighted([(5, ''), (1, ' ')])
        if typ is None:
            a, b = self.pieces(2, inside)
            if s.bool(1, 15):
                return '', ['text', '']
            return a, ['text', b]
        if typ == 'str':
            a, b = self.pieces(2, inside, elems=False)
            return pad + a + pad, ['str', b]
        if typ == 'chr':
            c = s.choice('abcXYZ09.:')
            return c, ['str', c]
        if typ in ('int', 'number', 'count'):
            a, v, st = lit.integer()
            if inside and any(c in a for c in inside):
                return None
            return pad + a + pad, ['int', v]
        if typ in ('float', 'double'):
            sg, v = lit.signs()
            a, f = ratstr(s)
            return pad + sg + a + pad, ['float', str(v * f)]
        if typ in ('dimen', 'length', 'dimension'):
            d = lit.dimen()
            if d is None:
                return None
            return pad + d[0] + pad, ['dim', str(d[1])]
        if typ.startswith('list'):
            m, sub = self.container(typ)
            items, exp = [], []
            for _ in range(s.weighted([(1, 1), (3, 2), (3, 3), (1, 5)])):
                a, e = self.item(sub, inside, m)
                if a is None:
                    return None
                p = s.choice(['', ' '])
                items.append(p + a + s.choice(['', ' ', '\n']))
                exp.append(e)
            return m.join(items), ['list', exp]
        if typ.startswith('dict'):
            m, sub = self.container(typ)
            items, exp = [], []
            for _ in range(s.weighted([(1, 1), (3, 2), (3, 3), (1, 5)])):
                key = self.word()
                if s.bool(1, 5):
                    key = s.choice([key + ' ' + self.word(), key + '-' + 'x', '*' + key])
                p = s.choice(['', ' '])
                if s.bool(1, 4):
                    items.append(p + key + s.choice(['', ' ']))
                    exp.append([key, ['true', None]])
                    continue
                a, e = self.item(sub, inside, m, val=True)
                if a is None:
                    return None
                q = s.choice(['', ' '])
                items.append(p + key + q + '=' + q + a + s.choice(['', ' ', '\n']))
                exp.append([key, e])
            if s.bool(1, 8):
                items.insert(s.int(0, len(items)), s.choice(['', ' ']))
                self.g.tags.append('dict_empty')
            return m.join(items), ['dict', exp]
        if typ == 'nox':
            toks = []
            for _ in range(s.int(1, 4)):
                toks.extend(s.choice([['a'], ['b'], ['\\mx'], ['\\textbf', '{', 'q', '}'], ['{', 'c', '}'], ['\\undefx'], ['1']]))
            src = ''.join(t + (' ' if t.startswith('\\') and len(t) > 2 else '') for t in toks)
            return src, ['toks', toks]
        if typ == 'cs':
            t = s.choice(['\\mx', '\\foo', '\\textbf', '\\%'])
            return t, ['cs', t[1:]]
        if typ == 'url':
            w = self.word()
            c = ''.join(s.choice(['/', '.', '#', '~', '%', '&', '-', '?', '=', ':', 'p']) for _ in range(s.int(1, 5)))
            return w + c + 'z', ['text', w + c + 'z']
        raise AssertionError(typ)

    @staticmethod
    def container(typ):
        p = typ.split('(')
        m = ','
        sub = None
        if len(p) > 1:
            m = p[1][0]
            if ':' in p[1][2:]:
                sub = p[1][2:].split(':')[-1]
        elif ':' in typ:
            sub = typ.split(':')[-1]
        return m, sub

    def item(self, sub, inside, m, val=False):
        s = self.s
        if sub:
            r = self.braced(sub, inside)
            if r is None or m in r[0] or (val and '=' in r[0]) or '{' in r[0] and sub == 'str':
                return None, None
            return r[0], r[1]
        if s.bool(1, 12):
            return '', ['text', '']
        if val and s.bool(1, 6):
            a, b = self.word(), self.word()
            g = s.choice(['', '{'])
            self.g.tags.append('dict_eq')
            return (g + a + '=' + b + ('}' if g else '')), ['text', a + '=' + b]
        a, b = self.pieces(1, inside, True, m + '=')
        return a, ['text', b]


NOBRACE = ['Tok', 'XTok', 'Number', 'Int', 'Dimen', 'Glue', 'MuDimen', 'MuGlue', 'Skip', 'Length']
BRACED = [(8, None), (3, 'str'), (2, 'int'), (1, 'number'), (2, 'float'), (1, 'double'), (2, 'dimen'), (1, 'length'),
          (2, 'list'), (1, 'list(;)'), (1, 'list(,):int'), (1, 'list(;):dimen'), (1, 'list:int'), (1, 'list(/):str'),
          (2, 'dict'), (1, 'dict(;)'), (1, 'dict(,):int'), (1, 'dict:dimen'), (1, 'dict(|)'), (1, 'dict(,):str'),
          (1, 'nox'), (1, 'cs'), (1, 'url'), (1, 'chr')]


class Gen(object):
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.tags = []

    def call(self):
        s = self.s
        sig, src, exp = [], '', {}
        pend = set()
        last = None
        A = Arg(self)
        gaps = lambda: s.weighted([(6, ''), (2, ' '), (1, '\n'), (1, '  ')])
        stops = ''
        for i in range(1, s.int(1, 6) + 1):
            name = 'a%d' % i if not s.bool(1, 12) else s.choice(['title', 'self', 'name', 'width'])
            if name in exp or name == 'self':
                name = 'a%d' % i
            kind = s.weighted([(2, 'mod'), (1, 'eq'), (5, '[]'), (2, '()'), (2, '<>'), (1, '{}'), (6, 'mand'), (2, 'tok'),
                               (2, 'unb')])
            piece = None
            nostop = ''
            if kind in ('mod', 'eq'):
                c = '=' if kind == 'eq' else s.weighted([(4, '*'), (1, '+'), (1, '-')])
                if any(e in exp for e in ['*modifier*', '*equals*'] if e == ('*equals*' if c == '=' else '*modifier*')):
                    continue
                sig.append(c)
                key = '*equals*' if c == '=' else '*modifier*'
                self.tags.append('spec_' + kind)
                if s.bool():
                    piece = c
                    exp[key] = ['str', c]
                else:
                    exp[key] = ['none', None]
                    pend.add(c)
                    self.tags.append('absent')
            elif kind in ('[]', '()', '<>', '{}'):
                typ = s.weighted(BRACED)
                sig.append(kind[0] + s.choice(['', ' ']) + name + (':' + typ if typ else '') + s.choice(['', ' ']) + kind[1])
                self.tags.append('spec_' + kind)
                self.tags.append('type_' + (typ or 'none').split('(')[0].split(':')[0])
                if s.bool(3, 5):
                    r = A.braced(typ, kind if kind != '{}' else '')
                    if r is None:
                        return None
                    piece = kind[0] + r[0] + kind[1]
                    exp[name] = r[1]
                    if typ == 'url' and any(c in r[0] for c in kind):
                        return None
                else:
                    exp[name] = ['none', None]
                    pend.add(kind[0])
                    self.tags.append('absent')
            elif kind == 'mand':
                typ = s.weighted(BRACED)
                sig.append(name + (':' + typ if typ else ''))
                self.tags.append('spec_mand')
                self.tags.append('type_' + (typ or 'none').split('(')[0].split(':')[0])
                r = A.braced(typ, '')
                if r is None:
                    return None
                piece = '{' + r[0] + '}'
                exp[name] = r[1]
            elif kind == 'tok':
                typ = s.choice([None, None, 'str', 'int', 'nox', 'Tok', 'XTok', 'cs', 'list', 'float', 'dimen'])
                sig.append(name + (':' + typ if typ else ''))
                self.tags.append('spec_tok')
                self.tags.append('type_' + (typ or 'none'))
                if typ == 'int' or typ == 'float':
                    c = s.choice('0123456789')
                    piece, exp[name] = c, ['int', int(c)] if typ == 'int' else ['float', c]
                elif typ == 'dimen':
                    piece, exp[name] = '\\da ', ['dim', '3']
                elif typ == 'cs':
                    piece, exp[name] = '\\mx ', ['cs', 'mx']
                else:
                    c = s.choice(['a', 'Z', '7', '.', '\\mx '])
                    e = {None: 'text', 'str': 'str', 'nox': 'toks', 'Tok': 'tok', 'XTok': 'text', 'list': 'list'}[typ]
                    t = c if typ in ('nox', 'Tok') or c != '\\mx ' else 'MX'
                    if typ == 'XTok' and s.bool(1, 3):
                        c, t = '{\\mx a}', 'MXa'
                    if e == 'toks':
                        t = [c.strip()]
                    elif e == 'tok':
                        t = c.strip().lstrip('\\')
                    elif e == 'list':
                        t = [['text', t]]
                    piece, exp[name] = c, [e, t]
            else:
                typ = s.choice(NOBRACE[2:])
                sig.append(name + ':' + typ)
                self.tags.append('type_' + {'Int': 'Number', 'Skip': 'Glue', 'Length': 'Dimen'}.get(typ, typ))
                lit = Lit(s)
                if typ in ('Number', 'Int'):
                    a, v, st = lit.integer()
                    e = ['int', v]
                elif typ in ('Dimen', 'Length', 'MuDimen'):
                    d = lit.dimen(mu=typ == 'MuDimen')
                    if d is None:
                        return None
                    a, e = d[0], ['dim', str(d[1])]
                else:
                    d = lit.glue(mu=typ == 'MuGlue')
                    if d is None:
                        return None
                    a, e = d[0], ['glue', [str(d[1][0])] + [p and [str(p[0]), p[1]] for p in d[1][1:]]]
                piece = a if a.endswith(' ') or s.bool(1, 2) else a + ' '
                exp[name] = e
                nostop = 'num'
            if piece is not None:
                if piece.lstrip()[0] in pend:
                    return None
                if last == 'num' and piece.lstrip()[0] in '\\0123456789':
                    # a register or macro directly after a number
                    return None
                pend = set()
                self.tags.append('present')
                g = gaps()
                if last == 'num' and not src.endswith(' ') and not g and piece[0] != '{':
                    g = ' '
                if src == '' and not g and (piece[0].isalpha()):
                    g = ' '
                src += g + piece
                last = nostop or kind
        trail = bool(pend)
        # what follows
        fs, ft = s.weighted([(5, ('fz', 'fz')), (2, (' fz', ' fz')), (2, ('{gz}', 'gz')), (2, ('\\textbf{bz}', 'bz')),
                             (1, ('\\relax rz', 'rz')), (1, ('\\mx{} z', 'MX z')), (1, ('$m$', 'm')), (1, ('.', '.')),
                             (1, ('1', '1')), (1, ('-', '-')), (1, (']', ']')), (1, ('[x]', '[x]')), (1, ('(y)', '(y)')),
                             (1, ('*', '*')), (1, (',5', ',5')), (1, ('plum', 'plum')), (1, ('minute', 'minute')),
                             (1, ('true', 'true')), (1, ('=', '=')), (1, ('%c\nfz', 'fz'))])
        if pend and fs.lstrip()[:1] in pend:
            return None
        if last == 'num' and fs[0] == '\\':
            fs, ft = 'fz', 'fz'
        if last == 'num' and not src.endswith(' ') and fs[0] not in '{$':
            fs = ' ' + fs
        if last == 'num' and fs.lstrip()[0].isdigit():
            fs, ft = ' fz', 'fz'
        if src == '' and fs[0].isalpha():
            fs = ' ' + fs
        if src == '' and fs[0] == '%':
            return None
        if last == 'num' and fs[0] == '%':
            return None
        strip = trail or last == 'num' or src == '' or src.endswith(' ')
        tol = s.int(1, 3000)
        return {'k': 'call', 'sig': s.choice([' ', '  ']).join(sig), 'src': src, 'follow': fs, 'rest': ft, 'strip': strip,
                'exp': exp, 'tol': tol, 'tags': sorted(set(self.tags)),
                # earlier uses: of the same class, of the class it is derived from
                'warm': s.weighted([(8, None), (1, 'same'), (1, 'base'), (1, 'derived')]),
                'sig0': s.choice(['a', '[ opt ] a', '* a b', 'a:int', '', 'x:str y:list', '< o > ( p ) self'])}

    def literal(self):
        s = self.s
        lit = Lit(s)
        k = s.weighted([(5, 'int'), (6, 'dim'), (4, 'glue'), (1, 'mudim'), (1, 'muglue'), (1, 'float')])
        mode = s.choice(['direct', 'arg', 'braced'])
        if k == 'int':
            a, v, st = lit.integer()
            e = ['int', v]
        elif k == 'float':
            sg, v = lit.signs()
            a, f = ratstr(s)
            a = sg + a
            e, st = ['float', str(v * f)], '0123456789 '
            if ',' not in a and '.' not in a:
                st += '.,'
            if mode == 'arg':
                mode = 'direct'
        elif k in ('dim', 'mudim'):
            d = lit.dimen(mu=k == 'mudim')
            if d is None:
                return None
            a, v, st = d
            e = ['dim', str(v)]
        else:
            d = lit.glue(mu=k == 'muglue')
            if d is None:
                return None
            a, v, st = d
            e = ['glue', [str(v[0])] + [p and [str(p[0]), p[1]] for p in v[1:]]]
        if mode == 'braced' and k in ('glue', 'mudim', 'muglue'):
            mode = 'arg'
        # what follows
        F0 = [(2, ('fz', 'fz')), (4, (' fz', 'fz')), (1, (' 12', '12')), (1, ('.5', '.5')), (1, (',5', ',5')),
              (1, ('7', '7')), (1, ('9x', '9x')), (1, ('\\relax 5', '5')), (1, ('{}5', '5')), (1, ('{5}', '5')),
              (1, (' -3', '-3')), (1, ('-3', '-3')), (1, ('abc', 'abc')), (1, ('plum', 'plum')), (1, ('minu', 'minu')),
              (1, (' plan', 'plan')), (1, (' mini', 'mini')), (1, (' {}x', 'x')), (1, ('e5', 'e5')), (1, ('G', 'G')),
              (1, ('\\textbf{b}', 'b')), (1, ('\\mx', 'MX')), (1, ('$m$', 'm')), (1, (' true', 'true')), (1, ('l', 'l')),
              (1, (' \\mx', 'MX')), (1, ('\\par q', None)), (1, ('%\n7', '7')), (1, ('true', 'true')), (1, ('=', '=')),
              (1, (']', ']')), (1, ('*', '*')), (1, (' \\textbf{b}', 'b')), (1, ('\\da=4pt z', 'z'))]
        fs, ft = s.weighted(F0)
        c = fs.lstrip('%\n')[:1] if fs[0] == '%' else fs[0]
        if mode == 'braced':
            fs, ft = s.weighted(F0)
            if fs[0] == ' ':
                ft = ' ' + ft
        else:
            if a.endswith(' ') and c == ' ':
                c = fs.strip()[0]      # the blanks after a control word don't count
            if 'REG' in st:
                # a register name has no optional space; letters after a control word need one
                if fs.startswith('\\da'):
                    return None
                if not a.endswith(' ') and c == ' ':
                    ft = None
            elif 'LETTERS' in st:
                if c.isalpha() or c == '%' or c == ' ':
                    return None
            elif c in st.replace('L', '') and (c != ' ' or k == 'float'):
                return None
            if fs.startswith('\\da') and k in ('int', 'float'):
                return None            # a multiple
            if 'L' in st.replace('LETTERS', '') and (fs[:1] in 'lL' or fs[:2] == ' l'):
                return None
        lv = 0 if e[1] in (0, '0') else 1
        return {'k': 'lit', 'kind': k, 'mode': mode, 'lit': a, 'follow': fs, 'rest': ft, 'exp': e,
                'tags': sorted(set(lit.tags)), 'nz': lv, 'tol': s.int(1, 3000)}


def gen(src, tier):
    g = Gen(src)
    return g.call() if src.bool(3, 5) else g.literal()


_cls = {}


def probe(name, args):
    import plasTeX
    return type(name, (plasTeX.Command,), {'args': args, 'macroName': name})


def warm(case, obs):
    """The class of the command, after some earlier use of it"""
    import plasTeX
    from plasTeX.TeX import TeX
    how = case.get('warm')
    if how == 'base':
        base = probe('base', case['sig0'])
        base().arguments
        obs.hit('derived_class')
        return type('probe', (base,), {'args': case['sig'], 'macroName': 'probe'})
    cls = probe('probe', case['sig'])
    if how == 'same':
        tex = TeX()
        tex.ownerDocument.context['probe'] = cls
        tex.input(source(case))
        tex.parse()
        obs.hit('second_use')
    elif how == 'derived':
        d = type('other', (cls,), {'args': case['sig0'], 'macroName': 'other'})
        d().arguments
        obs.hit('derived_class')
    return cls


def reader(kind):
    if kind not in _cls:
        import plasTeX
        meth = {'int': 'readInteger', 'dim': 'readDimen', 'glue': 'readGlue', 'mudim': 'readMuDimen',
                'muglue': 'readMuGlue', 'float': 'readDecimal'}[kind]

        class direct(plasTeX.Command):
            macroName = 'probe'

            def invoke(self, tex):
                self.attributes['v'] = getattr(tex, meth)()
        _cls[kind] = direct
    return _cls[kind]


def texts(v):
    return v.textContent if hasattr(v, 'textContent') else ''.join(texts(x) for x in v) if isinstance(v, (list, tuple)) else str(v)


def close(a, b, tol=1.0):
    return abs(float(a) - float(b)) <= tol + 1e-9 * abs(float(b))


def dimsp(x):
    return float(F(x) * PT)


def filcheck(got, exp, what):
    if exp is None:
        return None if got is None else '%s is %r, should be absent' % (what, got)
    if got is None:
        return '%s is missing' % what
    amount, order = F(exp[0]), exp[1]
    if order == 'pt':
        if abs(float(got)) >= 2e9 or not close(float(got), dimsp(amount)):
            return '%s is %r, should be %spt' % (what, got, float(amount))
        return None
    src = got.source
    num = src.rstrip('fil')
    if src[len(num):] != order or abs(float(num) - float(amount)) > 1e-5:
        return '%s is %r, should be %s%s' % (what, src, float(amount), order)


def same(got, e):
    """None or a message."""
    k, v = e
    if k == 'none':
        return None if got is None else 'bound to %r, should be absent' % (got,)
    if got is None:
        return 'not bound'
    if k == 'text':
        t = ' '.join(texts(got).split())
        return None if t == ' '.join(v.split()) else 'text %r, should be %r' % (t, v)
    if k == 'str':
        if not isinstance(got, str):
            return 'is a %s, should be a string' % type(got).__name__
        t = ' '.join(str(got).split())
        return None if t == ' '.join(v.split()) and got == got.strip() else 'string %r, should be %r' % (got, v)
    if k == 'int':
        if not isinstance(got, int) or isinstance(got, bool):
            return 'is %r, should be an integer' % (got,)
        return None if int(got) == v else 'integer %r, should be %r' % (int(got), v)
    if k == 'float':
        return None if isinstance(got, float) and abs(got - float(F(v))) < 1e-6 else 'number %r, should be %s' % (got, float(F(v)))
    if k == 'dim':
        if not isinstance(got, float):
            return 'is %r, should be a length' % (got,)
        return None if close(float(got), dimsp(v)) else 'length %rsp, should be %rsp' % (float(got), dimsp(v))
    if k == 'glue':
        if not close(float(got), dimsp(v[0])):
            return 'glue of %rsp, should be %rsp' % (float(got), dimsp(v[0]))
        return filcheck(got.stretch, v[1], 'stretch') or filcheck(got.shrink, v[2], 'shrink')
    if k == 'list':
        if not isinstance(got, list) or len(got) != len(v):
            return 'list %r, should have %d items' % (got, len(v))
        for i, (a, b) in enumerate(zip(got, v)):
            m = same(a, b)
            if m:
                return 'item %d: %s' % (i, m)
        return None
    if k == 'dict':
        want = {}
        for key, b in v:
            want[' '.join(key.split())] = b
        have = {}
        for key in got:
            have[' '.join(str(key).split())] = got[key]
        if set(want) != set(have):
            return 'keys %r, should be %r' % (sorted(have), sorted(want))
        for key, b in want.items():
            m = same(have[key], b)
            if m:
                return 'key %s: %s' % (key, m)
        return None
    if k == 'true':
        return None if got is True else 'value %r of a key without value' % (got,)
    if k == 'toks':
        t = [str(x.source).strip() for x in got]
        return None if t == v else 'tokens %r, should be %r' % (t, v)
    if k == 'cs':
        return None if got == v and got.catcode == 0 else 'is %r, should be \\%s' % (got, v)
    if k == 'tok':
        return None if got == v else 'token %r, should be %r' % (got, v)
    raise AssertionError(k)


def source(case):
    body = r'\probe' + (case['src'] if case['k'] == 'call' else
                        ('{' + case['lit'] + '}' if case['mode'] == 'braced' else
                         (' ' if case['lit'][:1].isalpha() else '') + case['lit']))
    return SETUP + 'PRE' + body + case['follow'] + r'\tolerance=%d END' % case['tol']


def show(case):
    sig = case.get('sig') or case['mode'] + ' ' + case['kind']
    return 'signature: %s\n%s' % (sig, source(case))


def run(case, obs):
    from plasTeX.TeX import TeX
    for t in case['tags']:
        obs.hit(t)
    tex = TeX()
    ctx = tex.ownerDocument.context
    if case['k'] == 'call':
        obs.hit('calls')
        ctx['probe'] = warm(case, obs)
        exp = case['exp']
        if any(v[0] != 'none' for v in exp.values()):
            obs.nontrivial = True
        obs.seen('signature', case['sig'])
    else:
        obs.hit('literals')
        obs.hit('lit_' + case['kind'])
        obs.hit('mode_' + case['mode'])
        exp = {'v': case['exp']}
        if case['mode'] == 'direct':
            ctx['probe'] = reader(case['kind'])
        elif case['mode'] == 'arg':
            ctx['probe'] = probe('probe', 'v:' + {'int': 'Number', 'dim': 'Dimen', 'glue': 'Glue', 'mudim': 'MuDimen',
                                                  'muglue': 'MuGlue'}[case['kind']])
        else:
            ctx['probe'] = probe('probe', 'v:' + {'int': 'int', 'dim': 'dimen', 'float': 'float'}[case['kind']])
        if case['nz']:
            obs.nontrivial = True
        obs.seen('literal', case['lit'])
    tex.input(source(case))
    doc = tex.parse()
    nodes = [n for n in doc.allChildNodes if n.nodeName == 'probe']
    if len(nodes) != 1:
        return '%d invocations in the document instead of 1' % len(nodes)
    att = nodes[0].attributes
    if set(att) != set(exp):
        return 'bound names %r, should be %r' % (sorted(att), sorted(exp))
    for name in exp:
        m = same(att[name], exp[name])
        if m:
            return 'argument %s: %s' % (name, m)
    text = doc.textContent
    pre, post = 'PRE', 'END'
    if 'self' in exp and exp['self'][0] != 'none' and case['k'] == 'call':
        pre = 'PRE' + nodes[0].textContent
    if not text.startswith(pre) or not text.endswith(post):
        return 'text around the call is %r' % text
    if case['rest'] is not None:
        rest = text[len(pre):len(text) - len(post)]
        want = case['rest']
        if case.get('strip'):
            rest, want = rest.strip(), want.strip()
        if ' '.join(rest.split('\n')) != want:
            return 'text after the call is %r, should be %r' % (rest, want)
    if int(ctx['tolerance'].value) != case['tol']:
        return 'the assignment after the call was not executed'
    obs.hit('assign_after')
    return None
