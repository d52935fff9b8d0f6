r"""Reference evaluator for a TeX/LaTeX macro language (independent of plasTeX).

Written from TeX's rules (tex.web parts 20-28; LaTeX's \newcommand family, counters, \newif).
It evaluates a source string under the default category codes and gives the visible text,
counter values and the outcome of probes.  Anything TeX would report as an error, or anything
outside the normal form of DESIGN.md, raises Invalid: such programs are not used.
"""
from fractions import Fraction

ESC, BG, EG, MATH, ALIGN, EOL, PAR, SUP, SUB, IGN, SP, LET, OTH, ACT, COM = range(15)
CATS = {'\\': ESC, '{': BG, '}': EG, '$': MATH, '&': ALIGN, '\n': EOL, '#': PAR, '^': SUP,
        '_': SUB, ' ': SP, '\t': SP, '~': ACT, '%': COM}
SPACE = (SP, ' ')


class Invalid(Exception):
    pass


def lex(src, at_letter=False):
    """Token list of a source string. cs tokens are (0, name); active chars (13, ch)."""
    out = []
    i, n = 0, len(src)
    state = 'N'

    def cat(c):
        if c == '@' and at_letter:
            return LET
        return CATS.get(c, LET if c.isalpha() else OTH)
    while i < n:
        c = src[i]
        k = cat(c)
        i += 1
        if k == ESC:
            if i >= n:
                raise Invalid('escape at end')
            c = src[i]
            if cat(c) == LET:
                j = i
                while j < n and cat(src[j]) == LET:
                    j += 1
                out.append((ESC, src[i:j]))
                i = j
                state = 'S'
            else:
                if c == '\n':
                    raise Invalid('escape at end of line')
                out.append((ESC, c))
                i += 1
                state = 'S' if c == ' ' else 'M'
        elif k == EOL:
            if state == 'N':
                out.append((ESC, 'par'))
            elif state == 'M':
                out.append(SPACE)
            state = 'N'
        elif k == SP:
            if state == 'M':
                out.append(SPACE)
                state = 'S'
        elif k == COM:
            while i < n and src[i] != '\n':
                i += 1
            i += 1
            state = 'N'
        else:
            out.append((k, c))
            state = 'M'
    return out


class Macro(object):
    __slots__ = ('pattern', 'body', 'nargs', 'opt', 'kind')

    def __init__(self, kind, body, pattern=(), nargs=0, opt=None):
        self.kind, self.body, self.pattern, self.nargs, self.opt = kind, body, tuple(pattern), nargs, opt

    def key(self):
        if self.kind == 'nc':
            return ('nc', self.nargs, tuple(self.opt) if self.opt is not None else None, tuple(self.body))
        return ('def', self.pattern, tuple(self.body))


PRIMS = '''def gdef edef xdef newcommand renewcommand let csname endcsname expandafter begingroup endgroup relax
global newif iftrue iffalse ifnum ifdim ifodd ifcase ifx if ifdefined else or fi
newcounter setcounter addtocounter stepcounter refstepcounter arabic value number
makeatletter makeatother newenvironment begin end par noexpand ifthenelse whiledo newlength setlength addtolength'''.split()
IFS = {'iftrue', 'iffalse', 'ifnum', 'ifdim', 'ifodd', 'ifcase', 'ifx', 'if', 'ifdefined'}
EXPANDABLE = {'csname', 'expandafter', 'arabic', 'number', 'else', 'or', 'fi'} | IFS

LATEX_ONLY = set()
UNITS = {'pt': Fraction(1), 'in': Fraction(7227, 100), 'pc': Fraction(12), 'cm': Fraction(7227, 254),
         'mm': Fraction(7227, 2540), 'bp': Fraction(7227, 7200), 'dd': Fraction(1238, 1157),
         'cc': Fraction(14856, 1157), 'sp': Fraction(1, 65536)}


def to_sp(frac_digits_int, frac_digits, unit, neg=False):
    """TeX's own arithmetic (tex.web 102, 107, 448-460): decimal literal and unit to sp."""
    integer = frac_digits_int
    # round_decimals
    a = 0
    for d in reversed(frac_digits[:17]):
        a = (a + d * 131072) // 10
    f = (a + 1) // 2
    if unit == 'sp':
        v = integer
    elif unit == 'pt':
        v = integer * 65536 + f
    else:
        num, den = {'in': (7227, 100), 'pc': (12, 1), 'cm': (7227, 254), 'mm': (7227, 2540),
                    'bp': (7227, 7200), 'dd': (1238, 1157), 'cc': (14856, 1157)}[unit]
        q, rem = divmod(integer * num, den)
        f = (num * f + 65536 * rem) // den
        q += f // 65536
        f %= 65536
        v = q * 65536 + f
    return -v if neg else v


class Engine(object):

    def __init__(self, max_steps=30000, max_out=4000, switches_global=True, newcommand_local=True):
        self.eqtb = {}
        for p in PRIMS:
            self.eqtb[p] = ('prim', p)
        self.saves = []          # one dict per open group
        self.kinds = []          # what opened it
        self.inp = []            # reversed stack of tokens
        self.out = []
        self.steps = 0
        self.max_steps, self.max_out = max_steps, max_out
        self.counters = {}
        self.switches = {}
        self.switches_global = switches_global
        self.newcommand_local = newcommand_local
        self.condstack = []
        self.events = {}
        self.lengths = {}
        self.csnames = None
        self.dim_margin = False

    # ------------------------------------------------------------- helpers
    def ev(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    def meaning(self, t):
        if t[0] == ESC:
            return self.eqtb.get(t[1])
        if t[0] == ACT:
            return self.eqtb.get(t)
        return ('char', t)

    def key(self, t):
        if t[0] == ESC:
            return t[1]
        if t[0] == ACT:
            return t
        raise Invalid('cs expected')

    def assign(self, key, val, glob=False):
        if glob:
            for s in self.saves:
                s.pop(key, None)
        elif self.saves and key not in self.saves[-1]:
            self.saves[-1][key] = self.eqtb.get(key)
        self.eqtb[key] = val

    def opengroup(self, kind):
        self.saves.append({})
        self.kinds.append(kind)
        if len(self.saves) > 200:
            raise Invalid('too deep')

    def closegroup(self, kind):
        if not self.kinds or self.kinds[-1] != kind:
            raise Invalid('group mismatch')
        self.kinds.pop()
        for k, v in self.saves.pop().items():
            if v is None:
                self.eqtb.pop(k, None)
            else:
                self.eqtb[k] = v

    def push(self, toks):
        self.inp.extend(reversed(toks))
        if len(self.inp) > 60000:
            raise Invalid('input too long')

    def next(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Invalid('too many steps')
        if not self.inp:
            return None
        return self.inp.pop()

    def need(self):
        t = self.next()
        if t is None:
            raise Invalid('unexpected end')
        return t

    def is_expandable(self, t):
        m = self.meaning(t)
        if m is None:
            return False
        return m[0] == 'macro' or m[0] == 'switch' or (m[0] == 'prim' and m[1] in EXPANDABLE)

    def xnext(self):
        """Next unexpandable token."""
        while 1:
            t = self.next()
            if t is None:
                return None
            if self.is_expandable(t):
                self.expand(t)
            else:
                return t

    # ------------------------------------------------------------- arguments
    def skip_spaces(self):
        while self.inp and self.inp[-1] == SPACE:
            self.next()

    def group_after_brace(self):
        """Balanced text, opening brace already read."""
        lvl = 1
        out = []
        while 1:
            t = self.need()
            if t[0] == BG:
                lvl += 1
            elif t[0] == EG:
                lvl -= 1
                if lvl == 0:
                    return out
            out.append(t)

    def undelimited(self):
        self.skip_spaces()
        t = self.need()
        if t[0] == BG:
            self.ev('arg_group')
            return self.group_after_brace()
        if t[0] == EG:
            raise Invalid('} as argument')
        if t == (ESC, 'par'):
            raise Invalid('par as argument')
        self.ev('arg_token')
        return [t]

    def delimited(self, delim):
        out = []
        lvl = 0
        d = list(delim)
        hidden = False
        while 1:
            t = self.need()
            out.append(t)
            if t[0] == BG:
                lvl += 1
                if d[-1][0] == BG and lvl == 1 and out[-len(d):] == d:
                    # '#{' case
                    arg = out[:-len(d)]
                    return arg
            elif t[0] == EG:
                lvl -= 1
                if lvl < 0:
                    raise Invalid('argument has an extra }')
            elif t == (ESC, 'par'):
                raise Invalid('par in argument')
            if out[-len(d):] == d:
                if lvl == 0:
                    arg = out[:-len(d)]
                    break
                hidden = True
        if hidden:
            raise Invalid('delimiter hidden in braces (normal form)')
        self.ev('arg_delimited')
        # strip one pair of braces
        if len(arg) >= 2 and arg[0][0] == BG and arg[-1][0] == EG:
            lvl = 0
            for i, t in enumerate(arg):
                if t[0] == BG:
                    lvl += 1
                elif t[0] == EG:
                    lvl -= 1
                    if lvl == 0:
                        break
            if i == len(arg) - 1:
                self.ev('arg_stripped')
                return arg[1:-1]
        return arg

    def optional(self, default):
        """LaTeX's \\@ifnextchar[ with default; the argument ends at the first ] outside braces."""
        self.skip_spaces()
        if self.inp and self.inp[-1] == (OTH, '['):
            self.next()
            self.ev('opt_present')
            arg = self.delimited([(OTH, ']')])
            if (OTH, '[') in arg:
                raise Invalid('nested bracket (normal form)')
            return arg
        self.ev('opt_absent')
        return list(default)

    def substitute(self, body, args):
        out = []
        i = 0
        while i < len(body):
            t = body[i]
            if t[0] == PAR:
                i += 1
                if i >= len(body):
                    raise Invalid('# at end of body')
                u = body[i]
                if u[0] == PAR:
                    out.append(u)
                elif u[0] == OTH and u[1].isdigit() and 1 <= int(u[1]) <= len(args):
                    out.extend(args[int(u[1]) - 1])
                else:
                    raise Invalid('bad parameter number')
            else:
                out.append(t)
            i += 1
        return out

    def expand_macro(self, m):
        args = []
        if m.kind == 'nc':
            n = m.nargs
            if m.opt is not None:
                args.append(self.optional(m.opt))
                n -= 1
            for _ in range(n):
                args.append(self.undelimited())
        else:
            pat = list(m.pattern)
            i = 0
            # leading literal tokens
            while i < len(pat) and pat[i][0] != PAR:
                if self.need() != pat[i]:
                    raise Invalid('use does not match definition')
                i += 1
            while i < len(pat):
                if pat[i][0] == BG:
                    break
                assert pat[i][0] == PAR
                i += 2
                j = i
                while j < len(pat) and pat[j][0] != PAR:
                    j += 1
                delim = pat[i:j]
                i = j
                if not delim:
                    args.append(self.undelimited())
                else:
                    if delim[-1][0] == BG:
                        self.ev('hash_brace')
                        args.append(self.delimited(delim))
                    else:
                        args.append(self.delimited(delim))
        self.ev('macro_call')
        self.ev('macro_call_%d' % len(args))
        self.push(self.substitute(m.body, args))

    # ------------------------------------------------------------- numbers
    def scan_keyword_tok(self):
        return self.xnext()

    def signs(self):
        neg = False
        while 1:
            t = self.xnext()
            if t == SPACE:
                continue
            if t == (OTH, '-'):
                neg = not neg
                continue
            if t == (OTH, '+'):
                continue
            return neg, t

    def opt_space(self):
        t = self.xnext()
        if t is not None and t != SPACE:
            self.push([t])

    def value_arg(self):
        name = ''.join(ch for k, ch in self.undelimited())
        if name not in self.counters:
            raise Invalid('no counter ' + name)
        return name

    def number(self):
        neg, t = self.signs()
        if t is None:
            raise Invalid('number expected')
        m = self.meaning(t)
        if m == ('prim', 'value'):
            v = self.counters[self.value_arg()]
            self.ev('num_value')
        elif t == (OTH, '`'):
            u = self.need()
            if u[0] in (BG, EG, ESC) and not (u[0] == ESC and len(u[1]) == 1):
                raise Invalid('char constant')
            v = ord(u[1])
            self.opt_space()
            self.ev('num_char')
        else:
            base, digs = 10, '0123456789'
            if t == (OTH, "'"):
                base, digs = 8, '01234567'
                t = self.xnext()
            elif t == (OTH, '"'):
                base, digs = 16, '0123456789ABCDEF'
                t = self.xnext()
            s = ''
            while t is not None and t[0] in (OTH, LET) and t[1] in digs and not (t[0] == LET and base != 16):
                s += t[1]
                t = self.xnext()
            if not s:
                raise Invalid('missing number')
            if t is not None and t != SPACE:
                self.push([t])
            v = int(s, base)
            if v > 2147483647:
                raise Invalid('number too big')
            self.ev('num_base%d' % base)
        return -v if neg else v

    def dimen(self):
        neg, t = self.signs()
        if t is None:
            raise Invalid('dimen expected')
        m = self.meaning(t)
        if m is not None and m[0] == 'length':
            v = self.lengths[m[1]]
            return -v if neg else v
        s = ''
        seen = False
        fr = []
        while t is not None and t[0] == OTH and (t[1].isdigit() or (t[1] in '.,' and not seen)):
            if t[1] in '.,':
                seen = True
            elif seen:
                fr.append(int(t[1]))
            else:
                s += t[1]
            t = self.xnext()
        if not s and not fr:
            raise Invalid('missing number')
        # note: TeX requires at least a digit or a point
        while t == SPACE:
            t = self.xnext()
        if t is None or t[0] not in (LET, OTH):
            raise Invalid('unit expected')
        u = t[1]
        t = self.xnext()
        if t is None:
            raise Invalid('unit expected')
        u += t[1]
        u = u.lower()
        if u not in UNITS:
            raise Invalid('unit %s' % u)
        self.opt_space()
        self.ev('dim_' + u)
        v = to_sp(int(s or '0'), fr, u, neg)
        if abs(v) >= 1 << 30:
            raise Invalid('dimension too large')
        return v

    # ------------------------------------------------------------- expansion
    def expand(self, t):
        m = self.meaning(t)
        if m[0] == 'macro':
            return self.expand_macro(m[1])
        if m[0] == 'switch':
            self.ev('if_switch')
            return self.conditional(bool(self.switches[m[1]]))
        p = m[1]
        if p == 'csname':
            name = ''
            while 1:
                u = self.xnext()
                if u is None:
                    raise Invalid('csname at end')
                mu = self.meaning(u)
                if mu == ('prim', 'endcsname'):
                    break
                if u[0] in (ESC, ACT):
                    raise Invalid('cs in csname')
                name += u[1]
            if self.eqtb.get(name) is None:
                if self.csnames is not None and name not in self.csnames:
                    raise Invalid('csname outside the namespace of the generator')
                self.assign(name, ('prim', 'relax'))
                self.ev('csname_undefined')
            self.ev('csname')
            self.push([(ESC, name)])
        elif p == 'expandafter':
            a = self.need()
            b = self.need()
            if b[0] in (ESC, ACT) and self.meaning(b) is None:
                raise Invalid('expandafter of undefined')
            if self.is_expandable(b):
                self.expand(b)
            else:
                self.push([b])
            self.ev('expandafter')
            self.push([a])
        elif p == 'arabic':
            self.push([(OTH, c) for c in str(self.counters[self.value_arg()])])
        elif p == 'number':
            v = self.number()
            self.push([(OTH, c) for c in str(v)])
        elif p in IFS:
            self.if_(p)
        elif p == 'fi':
            if not self.condstack:
                raise Invalid('extra fi')
            self.condstack.pop()
        elif p in ('else', 'or'):
            if not self.condstack or self.condstack[-1] == 'else' and p == 'else':
                raise Invalid('extra ' + p)
            if self.condstack[-1] not in ('if', 'case') or (p == 'or' and self.condstack[-1] != 'case'):
                raise Invalid('extra ' + p)
            self.skip_to('fi')
            self.condstack.pop()
        else:
            raise Invalid('expand ' + p)

    def skip_to(self, what, allow_or=False):
        """Skip to \\fi (what='fi') or to \\else/\\or/\\fi at level 0; returns the name found."""
        lvl = 0
        self.ev('skip')
        while 1:
            t = self.need()
            m = self.meaning(t) if t[0] in (ESC, ACT) else None
            if m is None:
                if t[0] == ESC and t[1].startswith('if'):
                    # TeX does not count it; plasTeX assumes a conditional of an unknown package
                    raise Invalid('undefined \\if... in skipped text')
                continue
            if m == ('prim', 'newif'):
                m = self.meaning(self.need())
                if m is None:
                    continue
                raise Invalid('redefined switch in skipped text')
            if m[0] == 'switch' or (m[0] == 'prim' and m[1] in IFS):
                lvl += 1
                self.ev('skip_nested')
            elif m == ('prim', 'fi'):
                if lvl == 0:
                    return 'fi'
                lvl -= 1
            elif m[0] == 'prim' and m[1] in ('else', 'or') and lvl == 0 and what != 'fi':
                return m[1]

    def conditional(self, truth):
        self.ev('cond_true' if truth else 'cond_false')
        if truth:
            self.condstack.append('if')
        else:
            w = self.skip_to('else')
            if w == 'or':
                raise Invalid('extra or')
            if w == 'else':
                self.condstack.append('else')

    def if_(self, p):
        self.ev('if_' + p)
        if p == 'iftrue':
            self.conditional(True)
        elif p == 'iffalse':
            self.conditional(False)
        elif p in ('ifnum', 'ifdim'):
            self.condstack.append('scan')
            get = self.number if p == 'ifnum' else self.dimen
            a = get()
            t = self.xnext()
            while t == SPACE:
                t = self.xnext()
            if t not in ((OTH, '<'), (OTH, '='), (OTH, '>')):
                raise Invalid('relation')
            b = get()
            self.endscan()
            if p == 'ifdim' and self.dim_margin and 0 < abs(a - b) <= 655:
                raise Invalid('lengths too close')
            self.conditional({'<': a < b, '=': a == b, '>': a > b}[t[1]])
        elif p == 'ifodd':
            self.condstack.append('scan')
            v = self.number()
            self.endscan()
            self.conditional(v % 2 == 1)
        elif p == 'ifdefined':
            t = self.need()
            if t[0] == ESC and t[1] in LATEX_ONLY:
                raise Invalid('outside the model')
            if t[0] not in (ESC, ACT):
                raise Invalid('ifdefined of a character')
            self.conditional(self.meaning(t) is not None)
        elif p == 'ifx':
            a, b = self.need(), self.need()
            self.conditional(self.ifxkey(a) == self.ifxkey(b))
        elif p == 'if':
            self.condstack.append('scan')
            a, b = self.xnext(), self.xnext()
            self.endscan()
            if a is None or b is None:
                raise Invalid('if at end')

            def code(t):
                m = self.meaning(t)
                return m[1][1] if m is not None and m[0] == 'char' else None
            self.conditional(code(a) == code(b))
        elif p == 'ifcase':
            self.condstack.append('scan')
            v = self.number()
            self.endscan()
            k = v
            if v == 0:
                self.condstack.append('case')
                self.ev('case_0')
                return
            while 1:
                w = self.skip_to('else')
                if w == 'fi':
                    self.ev('case_none')
                    return
                if w == 'else':
                    self.condstack.append('else')
                    self.ev('case_else')
                    return
                k -= 1
                if k == 0:
                    self.condstack.append('case')
                    self.ev('case_n')
                    return

    def endscan(self):
        if not self.condstack or self.condstack[-1] != 'scan':
            raise Invalid('conditional closed inside its own test')
        self.condstack.pop()

    def ifxkey(self, t):
        m = self.meaning(t)
        if m is None:
            return None
        if m[0] == 'macro':
            return ('macro', m[1].key())
        return m

    # ------------------------------------------------------------- commands
    def read_cs(self):
        self.skip_spaces()
        t = self.need()
        if t[0] == BG:
            g = [x for x in self.group_after_brace() if x != SPACE]
            if len(g) != 1:
                raise Invalid('one cs expected')
            t = g[0]
        if t[0] not in (ESC, ACT):
            raise Invalid('cs expected')
        return t

    def text_arg(self):
        return ''.join(ch for k, ch in self.undelimited())

    def do_def(self, glob):
        t = self.need()
        if t[0] not in (ESC, ACT):
            raise Invalid('def of a character')
        pat = []
        n = 0
        body = None
        while 1:
            u = self.need()
            if u[0] == BG:
                body = self.group_after_brace()
                break
            if u[0] == EG:
                raise Invalid('} in parameter text')
            if u[0] == PAR:
                v = self.need()
                if v[0] == BG:
                    pat.append(v)
                    body = self.group_after_brace()
                    body.append(v)
                    break
                n += 1
                if v != (OTH, str(n)):
                    raise Invalid('parameters not consecutive')
                pat += [u, v]
            else:
                pat.append(u)
        self.check_body(body, n)
        self.ev('def')
        self.assign(self.key(t), ('macro', Macro('def', body, pat)), glob)

    def check_body(self, body, n):
        i = 0
        while i < len(body):
            if body[i][0] == PAR:
                i += 1
                if i >= len(body) or not (body[i][0] == PAR or
                                          (body[i][0] == OTH and body[i][1].isdigit() and 1 <= int(body[i][1]) <= n)):
                    raise Invalid('illegal parameter number')
            i += 1

    def do_newcommand(self, renew):
        self.skip_spaces()
        if self.inp and self.inp[-1] == (OTH, '*'):
            self.next()
        t = self.read_cs()
        cur = self.meaning(t)
        if not renew and cur is not None and cur != ('prim', 'relax'):
            raise Invalid('already defined')
        if renew and cur is None:
            raise Invalid('undefined')
        if renew and cur[0] != 'macro' and cur != ('prim', 'relax'):
            raise Invalid('renewing a primitive or character alias (outside the domain)')
        self.skip_spaces()
        nargs = 0
        opt = None
        if self.inp and self.inp[-1] == (OTH, '['):
            self.next()
            nargs = int(''.join(c for k, c in self.delimited([(OTH, ']')])))
            self.skip_spaces()
            if self.inp and self.inp[-1] == (OTH, '['):
                self.next()
                opt = self.delimited([(OTH, ']')])
        body = self.undelimited()
        self.check_body(body, nargs)
        self.ev('newcommand')
        self.assign(self.key(t), ('macro', Macro('nc', body, nargs=nargs, opt=opt)), not self.newcommand_local)

    def do_let(self, glob=False):
        t = self.need()
        key = self.key(t)
        self.skip_spaces()
        u = self.need()
        if u == (OTH, '='):
            u = self.need()
            if u == SPACE:
                u = self.need()
        m = self.meaning(u)
        if m is None:
            raise Invalid('let to an undefined token')
        self.ev('let')
        self.assign(key, m, glob)

    def run(self, toks):
        self.push(toks)
        glob = False
        while 1:
            t = self.xnext()
            if t is None:
                break
            m = self.meaning(t)
            if m is None:
                raise Invalid('undefined ' + t[1])
            if m[0] == 'char':
                k, ch = m[1]
                if k in (LET, OTH):
                    self.emit(ch)
                elif k == SP:
                    self.emit(' ')
                elif k == BG:
                    self.opengroup('{')
                elif k == EG:
                    self.closegroup('{')
                else:
                    raise Invalid('character of category %d' % k)
                continue
            if m[0] == 'setswitch':
                self.switches[m[1]] = m[2]
                self.ev('switch_set')
                if not self.switches_global and self.saves:
                    raise Invalid('switch set inside a group')
                continue
            if m[0] in ('length',):
                raise Invalid('register assignment')
            p = m[1]
            if p == 'global':
                glob = True
                continue
            self.command(p, glob)
            glob = False
        if self.saves or self.condstack:
            raise Invalid('unbalanced at end')
        return self

    def emit(self, ch):
        self.out.append(ch)
        if len(self.out) > self.max_out:
            raise Invalid('output too long')

    def command(self, p, glob):
        if p in ('def', 'gdef'):
            self.do_def(glob or p == 'gdef')
        elif p in ('newcommand', 'renewcommand'):
            self.do_newcommand(p == 'renewcommand')
        elif p == 'let':
            self.do_let(glob)
        elif p == 'begingroup':
            self.opengroup('bg')
        elif p == 'endgroup':
            self.closegroup('bg')
        elif p == 'relax':
            pass
        elif p == 'newif':
            t = self.need()
            if t[0] != ESC or not t[1].startswith('if'):
                raise Invalid('newif')
            n = t[1][2:]
            self.switches[n] = False
            self.assign('if' + n, ('switch', n), True)
            self.assign(n + 'true', ('setswitch', n, True), True)
            self.assign(n + 'false', ('setswitch', n, False), True)
        elif p == 'newcounter':
            n = self.text_arg()
            if n in self.counters:
                raise Invalid('counter exists')
            self.counters[n] = 0
        elif p == 'setcounter':
            n = self.text_arg()
            self.need_counter(n)
            self.counters[n] = self.number_arg()
            self.ev('counter_set')
        elif p == 'addtocounter':
            n = self.text_arg()
            self.need_counter(n)
            self.counters[n] += self.number_arg()
            self.ev('counter_add')
        elif p in ('stepcounter', 'refstepcounter'):
            n = self.text_arg()
            self.need_counter(n)
            self.counters[n] += 1
            self.ev('counter_step')
        else:
            raise Invalid('command ' + p)

    def need_counter(self, n):
        if n not in self.counters:
            raise Invalid('no counter')

    def number_arg(self):
        a = self.undelimited()
        self.push([*a, (ESC, 'relax')])
        v = self.number()
        t = self.xnext()
        if t != (ESC, 'relax'):
            raise Invalid('garbage after number')
        return v

    def text(self):
        return ''.join(self.out)


def squeeze(s):
    return ' '.join(s.split())


def run(src, csnames=None, **kw):
    e = Engine(**kw)
    e.csnames = csnames
    e.run(lex(src))
    return e
