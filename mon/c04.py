r"""C04: grouping restores local changes, the context stack stays balanced.

Two kinds of executions:
 * histories of the context API (exhaustive short ones in the corpus, random long ones): after every
   operation the depth, every lookup and every category are compared with a stack-of-maps model;
 * balanced programs: the generator keeps the scope model while it writes the program, so it knows what
   every probe must print; after the parse the stack depth and the categories must be the initial ones.
"""
import itertools

ID = 'C04'
RULE = 'a history counts if it pops at least one frame; a program counts if at least one local change is undone'
QUICK = (30000, 40)
THOROUGH = (400000, 780)
REQUIRED = ['api_ops', 'api_pop_anon', 'api_pop_obj', 'api_pop_end', 'api_pop_over_group', 'programs', 'probe_def',
            'probe_cat', 'blk_brace', 'blk_env', 'blk_math', 'blk_cell', 'blk_arg', 'blk_userenv', 'blk_defenv',
            'global_survives', 'local_undone', 'catcode_undone', 'document_env', 'decl']
ASSUMPTIONS = ['declarations such as \\bfseries are only used inside a group: plasTeX keeps the frame of a declaration '
               'until the enclosing group ends, so a top-level declaration leaves one open by design',
               'arguments of user macros are no groups in TeX and are not used as such',
               'switches and counters are global (plasTeX; stated by the property)']

# ------------------------------------------------------------------ API histories
NAMES = ['xa', 'xb']
CHARS = ['@', '!', '~', 'a', '\\', '{', '%', ' ']
DEFCAT = {'@': 12, '!': 12, '~': 13, 'a': 11, '\\': 0, '{': 1, '%': 14, ' ': 10}
_classes = {}


def classes():
    if not _classes:
        import plasTeX
        loc = type('xb', (plasTeX.Command,), {'tag': 'locB'})
        _classes['E0'] = type('envzero', (plasTeX.Environment,), {})
        _classes['E1'] = type('envone', (plasTeX.Environment,), {'xb': loc})
        _classes['C0'] = type('cmdzero', (plasTeX.Command,), {})
        _classes['END0'] = type('endcmdzero', (plasTeX.Command,), {})
    return _classes


class Model(object):
    def __init__(self):
        self.frames = [{'obj': None, 'cls': None, 'm': {}, 'c': dict(DEFCAT)}]

    def push(self, obj=None, cls=None):
        f = {'obj': obj, 'cls': cls, 'm': {}, 'c': dict(self.frames[-1]['c'])}
        if cls == 'E1':
            f['m']['xb'] = 'locB'
        self.frames.append(f)

    def look(self, name):
        for f in reversed(self.frames):
            if name in f['m']:
                return f['m'][name]
        return None

    def pop_until(self, pred):
        while len(self.frames) > 1:
            if pred(self.frames.pop()):
                return

    def has(self, pred):
        return any(pred(f) for f in self.frames[1:])

    def local(self, name, v):
        self.frames[-1]['m'][name] = v

    def glob(self, name, v):
        for f in self.frames:
            f['m'].pop(name, None)
        self.frames[0]['m'][name] = v

    def sig(self):
        return (tuple((f['cls'], f['obj'] is not None, tuple(sorted(f['m'].items())), tuple(sorted(f['c'].items())))
                      for f in self.frames))


def possible(m):
    """Operations that keep the history balanced."""
    ops = ['push', 'pushE0', 'pushE1', 'pushC0']
    if m.has(lambda f: f['obj'] is None):
        ops.append('pop')
    for k in ('E0', 'E1', 'C0'):
        if m.has(lambda f: f['cls'] == k):
            ops += ['popobj' + k, 'popend' + k]
    for n in NAMES:
        ops += ['def' + n, 'gdef' + n, 'add' + n, 'addg' + n, 'letc' + n, 'letm' + n, 'gletc' + n, 'gletm' + n, 'nc' + n,
                'ncl' + n]
    for c in '@!a':
        for k in (11, 12, 13):
            ops.append('cat%d%s' % (k, c))
    ops += ['cat14~', 'cat0@', 'verb']
    return ops


SHORT = ['push', 'pushE1', 'pop', 'popobjE1', 'popendE1', 'defxb', 'gdefxb', 'letcxb', 'letmxb', 'gletcxb', 'cat11@', 'cat12@',
         'verb']


def run_api(ops, obs, sub=False):
    from plasTeX.Context import Context
    import plasTeX
    from plasTeX.Tokenizer import Letter, EscapeSequence
    K = classes()
    ctx = Context()
    m = Model()
    objs = []
    n = 0
    for op in ops:
        if op not in possible(m):
            return 'skip'
        n += 1
        tag = 'v%d' % n
        name = op[-2:]
        if op == 'push':
            ctx.push()
            m.push()
        elif op.startswith('push'):
            k = op[4:]
            o = K[k]()
            o.macroMode = o.MODE_BEGIN
            ctx.push(o)
            m.push(o, k)
        elif op == 'pop':
            over = m.frames[-1]['obj'] is not None
            ctx.pop()
            m.pop_until(lambda f: f['obj'] is None)
            obs.hit('api_pop_anon')
            obs.hit('api_pop_over_object', int(over))
        elif op.startswith('popobj'):
            k = op[6:]
            o = [f['obj'] for f in m.frames if f['cls'] == k][-1]
            obs.hit('api_pop_over_group', int(m.frames[-1]['obj'] is not o))
            ctx.pop(o)
            m.pop_until(lambda f: f['obj'] is o)
            obs.hit('api_pop_obj')
        elif op.startswith('popend'):
            k = op[6:]
            if k == 'C0':
                o = K['END0']()
            else:
                o = K[k]()
                o.macroMode = o.MODE_END
            obs.hit('api_pop_over_group', int(m.frames[-1]['cls'] != k))
            ctx.pop(o)
            m.pop_until(lambda f: f['cls'] == k)
            obs.hit('api_pop_end')
        elif op.startswith('def'):
            ctx.newdef(name, None, tag)
            m.local(name, tag)
        elif op.startswith('gdef'):
            ctx.newdef(name, None, tag, local=False)
            m.glob(name, tag)
        elif op.startswith('addg'):
            ctx.addGlobal(name, type(name, (plasTeX.Command,), {'tag': tag}))
            m.glob(name, tag)
        elif op.startswith('add'):
            ctx.addLocal(name, type(name, (plasTeX.Command,), {'tag': tag}))
            m.local(name, tag)
        elif op.startswith('letc'):
            ctx.let(EscapeSequence(name), Letter('q'))
            m.local(name, 'let:q')
        elif op.startswith('gletc'):
            ctx.let(EscapeSequence(name), Letter('q'), local=False)
            m.glob(name, 'let:q')
        elif op.startswith('letm') or op.startswith('gletm'):
            other = NAMES[1 - NAMES.index(name)]
            v = m.look(other)
            if v is None:
                return 'skip'
            if op[0] == 'g':
                ctx.let(EscapeSequence(name), EscapeSequence(other), local=False)
                m.glob(name, v)
            else:
                ctx.let(EscapeSequence(name), EscapeSequence(other))
                m.local(name, v)
        elif op.startswith('nc'):
            v = m.look(name)
            if v is not None and not v.startswith('v'):
                return 'skip'
            cur = ctx[name] if v is not None else None
            if cur is not None and not issubclass(cur, (plasTeX.Definition, plasTeX.NewCommand)):
                return 'skip'       # \newcommand does not override Python macros
            if op.startswith('ncl'):
                ctx.newcommand(name, 0, tag, local=True)
                m.local(name, tag)
            else:
                ctx.newcommand(name, 0, tag)
                m.glob(name, tag)
        elif op.startswith('cat'):
            code, ch = int(op[3:-1]), op[-1]
            ctx.catcode(ch, code)
            m.frames[-1]['c'][ch] = code
        elif op == 'verb':
            ctx.setVerbatimCatcodes()
            for ch in CHARS:
                m.frames[-1]['c'][ch] = 11 if ch.isalpha() else 12
        obs.hit('api_ops')
        bad = compare(ctx, m)
        if bad:
            return 'after %d operations (%s): %s' % (n, ' '.join(ops[:n]), bad)
    obs.seen('api_states', repr(m.sig())[:200] if not sub else hash(m.sig()))
    return None


def compare(ctx, m):
    from plasTeX.Tokenizer import EscapeSequence
    if len(ctx.contexts) != len(m.frames) or ctx.depth != len(m.frames):
        return 'stack depth %d (depth attribute %d), expected %d' % (len(ctx.contexts), ctx.depth, len(m.frames))
    for nm in NAMES:
        want = m.look(nm)
        tok = EscapeSequence(nm)
        alias = ctx.get_let(tok)
        if alias is not tok:
            got = 'let:' + str(alias)
        elif nm in ctx:
            c = ctx[nm]
            got = getattr(c, 'tag', None) or ''.join(c.definition)
            if ctx.get(nm) is not c or nm not in ctx.keys():
                return 'get()/keys() disagree with [] for %s' % nm
        else:
            got = None
        if got != want:
            return 'lookup of %s gives %s, expected %s' % (nm, got, want)
    cats = m.frames[-1]['c']
    for ch in CHARS:
        if ctx.whichCode(ch) != cats[ch]:
            return 'category of %r is %s, expected %s' % (ch, ctx.whichCode(ch), cats[ch])
    return None


def run_enum(prefix, depth, obs):
    """All histories prefix+w, |w| = depth, over the short alphabet (invalid steps are cut)."""
    def model_ok(ops):
        m = Model()
        for op in ops:
            if op not in possible(m):
                return False
            if op == 'push':
                m.push()
            elif op.startswith('push'):
                m.push(object(), op[4:])
            elif op == 'pop':
                m.pop_until(lambda f: f['obj'] is None)
            elif op.startswith('popobj'):
                last = [f for f in m.frames if f['cls'] == op[6:]][-1]
                m.pop_until(lambda f: f is last)
            elif op.startswith('popend'):
                m.pop_until(lambda f: f['cls'] == op[6:])
        return True
    count = 0
    stack = [list(prefix)] if model_ok(prefix) else []
    while stack:
        ops = stack.pop()
        if len(ops) == len(prefix) + depth:
            count += 1
            r = run_api(['defxa'] + ops, obs, True)
            if r and r != 'skip':
                return r
            continue
        for o in SHORT:
            if model_ok(ops + [o]):
                stack.append(ops + [o])
    obs.hit('api_enumerated', count)
    return None


# ------------------------------------------------------------------ programs
SETUP = (r'\newcounter{ca}\newif\ifsa\def\xa{a0z}\def\xb{b0z}\def\pr{N}\makeatletter\def\pr@be{Y}\makeatother'
         r'\newcommand\grp[1]{{#1}}\newenvironment{uenv}[1]{u#1}{v}\newenvironment{denv}{\def\xa{dxz}\catcode`\@=11 }{\xa}'
         r'\def\fenv{\def\xb{fxz}F}\def\endfenv{\xb}\newtheorem{thm}{Th}\newenvironment{lenv}{\begin{center}}{\end{center}}')
ENVS = ['center', 'quote', 'itemize', 'enumerate', 'minipage', 'small', 'bfseries', 'flushleft', 'figure', 'uenv', 'denv', 'fenv',
        'lenv', 'unknownenv']
CMDS = ['\\textbf', '\\emph', '\\mbox', '\\textit', '\\fbox', '\\texttt', '\\grp', '\\footnote', '\\underline']
DECLS = ['\\bfseries ', '\\it ', '\\small ', '\\em ', '\\centering ', '\\ttfamily ']
CATS = {'@': [11, 12], '!': [13, 12], '?': [9, 12, 11], '*': [14, 12], '|': [0, 12]}


class Gen(object):
    def __init__(self, src, budget):
        self.s = src
        self.budget = budget
        self.n = 0
        self.sc = [{'@': 12, '!': 12, '?': 12, '*': 12, '|': 12, 'xa': 'a0z', 'xb': 'b0z'}]
        self.ca = 0
        self.sa = False
        self.out = []
        self.exp = []
        self.frozen = None
        self.math = 0
        self.inarg = 0
        self.ev = {}
        self.in_group = 0
        self.star = 0       # inside tabular*: its \\end needs the star

    def hit(self, n, k=1):
        self.ev[n] = self.ev.get(n, 0) + k

    def w(self, s, e=''):
        self.out.append(s)
        self.exp.append(e)

    def get(self, k):
        for f in reversed(self.sc):
            if k in f:
                return f[k]

    def cat(self, ch):
        """Category in force when the characters being written are tokenized."""
        if self.frozen is not None:
            return self.frozen[ch]
        return self.get(ch)

    def fresh(self):
        self.n += 1
        return 'k%dz' % self.n

    def word(self):
        self.n += 1
        x = 'w%dz' % self.n
        self.w(x, x)

    def glob(self, k, v):
        for f in self.sc:
            f.pop(k, None)
        self.sc[0][k] = v

    def define(self):
        s = self.s
        nm = s.choice(['xa', 'xb', 'xc'])
        v = self.fresh()
        k = s.weighted([(6, 'def'), (2, 'gdef'), (1, 'xdef'), (1, 'gd2'), (2, 'let'), (2, 'letc'), (1, 'glet'), (1, 'gletc'),
                        (2, 'nc'), (1, 'chardef'), (1, 'edef')])
        other = s.choice(['xa', 'xb'])
        if k in ('def', 'edef'):
            self.w('\\%s\\%s{%s}' % (k, nm, v))
            self.sc[-1][nm] = v
        elif k in ('gdef', 'xdef'):
            self.w('\\%s\\%s{%s}' % (k, nm, v))
            self.glob(nm, v)
        elif k == 'gd2':
            self.w('\\global%s\\def\\%s{%s}' % (s.choice(['', ' ', '\\long']), nm, v))
            self.glob(nm, v)
        elif k == 'let':
            self.w('\\let\\%s%s\\%s ' % (nm, s.choice(['', '=', ' ']), other))
            self.sc[-1][nm] = self.get(other)
        elif k == 'glet':
            self.w('\\global\\let\\%s=\\%s ' % (nm, other))
            self.glob(nm, self.get(other))
        elif k == 'letc':
            self.w('\\let\\%s=Q' % nm)
            self.sc[-1][nm] = 'Q'
        elif k == 'gletc':
            self.w('\\global\\let\\%s=R' % nm)
            self.glob(nm, 'R')
        elif k == 'nc':
            u = 'y' + chr(97 + self.n % 26)
            self.w('\\%s\\%s{%s}' % ('newcommand' if self.get(u) is None else 'renewcommand', u, v))
            self.sc[-1][u] = v
        elif k == 'chardef':
            self.w('\\chardef\\xd=%d\\relax ' % (65 + self.n % 26))
            self.sc[-1]['xd'] = chr(65 + self.n % 26)
        self.hit('local_def')

    def setcat(self):
        s = self.s
        ch = s.choice('@!?*|')
        if ch == '*' and self.star:
            ch = '@'
        c = s.choice(CATS[ch])
        if ch == '@' and s.bool():
            self.w('\\makeatletter ' if c == 11 else '\\makeatother ')
        elif self.cat(ch) in (9, 14):
            # the character would vanish: name it by number
            self.w('\\catcode%d=%d\\relax ' % (ord(ch), c))
        else:
            self.w('\\catcode`\\%s=%d\\relax ' % (ch, c))
        self.sc[-1][ch] = c
        if ch == '!' and c == 13 and self.frozen is None:
            v = self.fresh()
            self.w('\\def!{%s}' % v)
            self.sc[-1]['act'] = v

    def probe(self):
        s = self.s
        k = s.weighted([(6, 'def'), (2, 'nc'), (4, 'cat'), (1, 'cnt'), (1, 'sw')])
        if k == 'def':
            nm = s.choice(['xa', 'xb'])
            self.w('\\%s ' % nm, self.get(nm))
            self.hit('probe_def')
        elif k == 'nc':
            nm = s.choice(['xc', 'xd', 'y' + chr(97 + s.int(0, 25))])
            v = self.get(nm)
            if nm == 'xc' and v in ('Q', 'R'):
                self.w('\\xc ', v)
            else:
                self.w('\\ifdefined\\%s D\\%s \\else U\\fi ' % (nm, nm), 'U' if v is None else 'D' + v)
            self.hit('probe_def')
        elif k == 'cat':
            self.hit('probe_cat')
            ch = s.choice('@!?*|')
            c = self.cat(ch)
            if ch == '@':
                self.w('\\pr@be ', 'Y' if c == 11 else 'N@be')
            elif ch == '!':
                if c == 13:
                    if self.get('act') is None:
                        return
                    self.w('!', self.get('act'))
                else:
                    self.w('!', '!')
            elif ch == '?':
                self.w('a?b', 'ab' if c == 9 else 'a?b')
            elif ch == '*':
                if self.math:
                    return
                self.w('c*d\n', 'c' if c == 14 else 'c*d')
            else:
                self.w('|xa ', self.get('xa') if c == 0 else '|xa')
        elif k == 'cnt':
            self.w('\\arabic{ca}', str(self.ca))
        else:
            self.w('\\ifsa T\\else F\\fi ', 'T' if self.sa else 'F')

    def effect(self):
        s = self.s
        if s.bool():
            self.ca += 1
            self.w('\\stepcounter{ca}')
        else:
            self.sa = s.bool()
            self.w('\\satrue ' if self.sa else '\\safalse ')

    def leave(self):
        f = self.sc.pop()
        if any(k in ('xa', 'xb', 'xc', 'xd') or k[0] == 'y' for k in f):
            self.hit('local_undone')
        if any(len(k) == 1 for k in f):
            self.hit('catcode_undone')

    def body(self, d):
        for _ in range(self.s.weighted([(2, 1), (4, 2), (3, 3), (2, 4)])):
            self.item(d)

    def group(self, d):
        self.sc.append({})
        self.in_group += 1
        self.body(d)
        if self.s.bool(1, 3):
            self.probe()
        self.in_group -= 1
        self.leave()

    def item(self, d):
        s = self.s
        self.budget -= 1
        k = s.weighted([(3, 'word'), (6, 'def'), (6, 'probe'), (4, 'cat'), (1, 'effect'), (2, 'decl'), (8, 'block')])
        if k == 'block' and (d <= 0 or self.budget <= 0):
            k = 'probe'
        if k == 'word':
            self.word()
        elif k == 'def':
            self.define()
        elif k == 'probe':
            self.probe()
        elif k == 'cat':
            self.setcat()
        elif k == 'effect':
            self.effect()
        elif k == 'decl':
            if self.in_group and not self.math:
                self.w(s.choice(DECLS))
                self.hit('decl')
        else:
            self.block(d - 1)

    def block(self, d):
        s = self.s
        opts = [(4, 'brace'), (1, 'begingroup'), (1, 'bgroup'), (3, 'arg'), (2, 'tab')]
        if not self.math:
            opts += [(3, 'math'), (1, 'verb'), (3, 'env')]
            if not self.inarg:
                opts += [(3, 'env'), (1, 'dmath')]
        k = s.weighted(opts)
        if k in ('brace', 'begingroup', 'bgroup'):
            a, b = {'brace': ('{', '}'), 'begingroup': ('\\begingroup ', '\\endgroup '), 'bgroup': ('\\bgroup ', '\\egroup ')}[k]
            self.w(a)
            self.group(d)
            self.w(b)
            self.hit('blk_brace')
        elif k == 'arg':
            cmd = s.choice(CMDS if not self.math else ['\\mbox', '\\grp', '\\mbox'])
            fz, math = self.frozen, self.math
            if self.frozen is None:
                self.frozen = {c: self.get(c) for c in CATS}
            self.inarg += 1
            if cmd != '\\grp':
                self.math = 0
            self.w(cmd + '{')
            self.group(d)
            self.w('}')
            self.inarg -= 1
            self.math = math
            self.frozen = fz
            self.hit('blk_arg')
        elif k == 'tab':
            if self.math:
                env, spec = 'array', '{lcr}'
            else:
                env, spec = s.choice([('tabular', '{l|cr}'), ('tabular', '{lcr}'), ('tabular*', '{3cm}{lcr}')])
                if self.cat('*') != 12 or self.cat('|') != 12:
                    env, spec = 'tabular', '{lcr}'
            eqn = not self.math and not self.inarg and s.bool(1, 5)
            if eqn:
                env, spec = 'eqnarray', ''
                self.math += 1
            self.w('\\begin{%s}%s' % (env, spec))
            self.sc.append({})
            self.star += env == 'tabular*'
            rows = s.int(1, 3)
            for r in range(rows):
                cells = s.int(1, 3)
                if s.bool(1, 6) and not eqn:
                    self.w('\\hline ')
                for c in range(cells):
                    if s.bool(1, 8) and c == 0 and not eqn:
                        fz = self.frozen
                        if self.frozen is None:
                            self.frozen = {x: self.get(x) for x in CATS}
                        self.inarg += 1
                        self.w('\\multicolumn{2}{c}{')
                        self.group(0)
                        self.w('}')
                        self.inarg -= 1
                        self.frozen = fz
                    else:
                        self.group(d)
                    if c < cells - 1:
                        self.w('&')
                    self.hit('blk_cell')
                if r < rows - 1 or s.bool(1, 4):
                    self.w(s.choice(['\\\\', '\\\\ ', '\\\\[2pt]', '\\tabularnewline '] if not self.math else ['\\\\', '\\\\ ']))
            self.leave()
            self.star -= env == 'tabular*'
            self.math -= eqn
            self.w('\\end{%s}' % env)
        elif k in ('math', 'dmath'):
            if k == 'math':
                a, b = s.choice([('$', '$'), ('\\(', '\\)'), ('$', '$'), ('\\begin{math}', '\\end{math}')])
            else:
                a, b = s.choice([('$$', '$$'), ('\\[', '\\]'), ('\\begin{equation}', '\\end{equation}'),
                                 ('\\begin{displaymath}', '\\end{displaymath}')])
            self.w(a)
            self.w('m', 'm')
            self.math += 1
            self.group(d)
            self.math -= 1
            self.w(b)
            self.hit('blk_math')
        elif k == 'verb':
            if self.inarg:
                return
            self.w('\\verb+x{@%y+', 'x{@%y')
            self.hit('blk_verb')
        else:
            if self.inarg:
                env = s.choice(['minipage', 'small', 'bfseries', 'uenv', 'fenv', 'denv', 'itemize'])
            else:
                env = s.choice(ENVS + ['verbatim'])
            if env == 'verbatim':
                self.w('\\begin{verbatim}\n{ @ \\xa \n\\end{verbatim}\n', '{@\\xa')
                return
            self.w('\\begin{%s}' % env)
            self.sc.append({})
            tail = ''
            if env == 'minipage':
                self.w('{3cm}')
            elif env in ('itemize', 'enumerate'):
                for _ in range(s.int(1, 2)):
                    # an item is no group
                    self.w('\\item ')
                    self.in_group += 1
                    self.body(d - 1)
                    self.in_group -= 1
                self.w('\\item ')
            elif env == 'uenv':
                self.w('{p}', 'up')
                self.hit('blk_userenv')
            elif env == 'denv':
                if self.frozen is not None:
                    pass
                self.sc[-1]['xa'] = 'dxz'
                self.sc[-1]['@'] = 11
                self.hit('blk_userenv')
            elif env == 'fenv':
                self.w('', 'F')
                self.sc[-1]['xb'] = 'fxz'
                self.hit('blk_defenv')
            self.in_group += 1
            self.body(d)
            self.in_group -= 1
            if env == 'uenv':
                tail = 'v'
            elif env == 'denv':
                tail = self.get('xa')
            elif env == 'fenv':
                tail = self.get('xb')
            self.leave()
            self.w('\\end{%s}' % env, tail)
            self.hit('blk_env')

    def final(self):
        for nm in ('xa', 'xb'):
            self.w('\\%s ' % nm, self.get(nm))
        for nm in ['xc', 'xd', 'ya', 'yb', 'yk']:
            v = self.get(nm)
            if nm == 'xc' and v in ('Q', 'R'):
                self.w('\\xc ', v)
            else:
                self.w('\\ifdefined\\%s D\\%s \\else U\\fi ' % (nm, nm), 'U' if v is None else 'D' + v)
        self.w('\\arabic{ca}\\ifsa T\\else F\\fi ', '%d%s' % (self.ca, 'T' if self.sa else 'F'))


def gen(src, tier):
    if src.bool(1, 4):
        m = Model()
        ops = []
        k = {}
        for _ in range(src.int(3, 40)):
            p = possible(m)
            # favour stack operations
            st = [o for o in p if o.startswith('p')]
            op = src.choice(st) if src.bool(2, 5) else src.choice(p)
            if op.startswith('letm') or op.startswith('gletm') or op.startswith('nc'):
                nm = op[-2:]
                if 'letm' in op:
                    other = NAMES[1 - NAMES.index(nm)]
                    if m.look(other) is None:
                        continue
                    (m.glob if op[0] == 'g' else m.local)(nm, m.look(other))
                else:
                    v = m.look(nm)
                    if v is not None and v != 'd':
                        continue
                    (m.local if op.startswith('ncl') else m.glob)(nm, 'd')
            elif op == 'push':
                m.push()
            elif op.startswith('push'):
                m.push(object(), op[4:])
                k[op[4:]] = 1
            elif op == 'pop':
                m.pop_until(lambda f: f['obj'] is None)
            elif op.startswith('popobj') or op.startswith('popend'):
                last = [f for f in m.frames if f['cls'] == op[6:]][-1]
                m.pop_until(lambda f: f is last)
            elif op.startswith('def'):
                m.local(op[-2:], 'd')
            elif op.startswith('gdef'):
                m.glob(op[-2:], 'd')
            elif op.startswith('addg'):
                m.glob(op[-2:], 'c')
            elif op.startswith('add'):
                m.local(op[-2:], 'c')
            elif op.startswith('letc'):
                m.local(op[-2:], 'l')
            elif op.startswith('gletc'):
                m.glob(op[-2:], 'l')
            ops.append(op)
        return {'api': ops}
    g = Gen(src, 26 if tier != 'thorough' else 60)
    doc = src.bool(1, 8)
    for _ in range(src.int(1, 4)):
        g.item(src.int(1, 4))
    g.final()
    body = ''.join(g.out)
    cats = {c: g.sc[0][c] for c in CATS}
    pre, post = '', ''
    if doc:
        pre, post = '\\documentclass{article}', '\\end{document}'
        cats = {c: 12 for c in CATS}
        text = pre + SETUP + '\\begin{document}' + body + post
        g.ev['document_env'] = 1
    else:
        text = SETUP + body
    return {'src': text, 'exp': ''.join(g.exp), 'cats': cats, 'ev': g.ev}


def squash(s):
    return ''.join(s.split()).replace('\u2019', "'")


def run(case, obs):
    if 'api' in case:
        obs.nontrivial = any(o.startswith('pop') for o in case['api'])
        r = run_api(case['api'], obs)
        return None if r == 'skip' else r
    if 'enum' in case:
        return run_enum(case['enum'], case['depth'], obs)
    from plasTeX.TeX import TeX
    tex = TeX()
    tex.input(case['src'])
    doc = tex.parse()
    ctx = doc.context
    obs.hit('programs')
    for k, v in case['ev'].items():
        obs.hit(k, v)
    obs.hit('global_survives', int('\\global' in case['src'] or '\\gdef' in case['src']))
    obs.nontrivial = case['ev'].get('local_undone', 0) + case['ev'].get('catcode_undone', 0) > 0
    obs.seen('outcomes', case['exp'][-80:])
    got, want = squash(doc.textContent), squash(case['exp'])
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return 'probes differ at position %d\n expected: %r\n got:      %r' % (i, want[max(0, i - 60):i + 60], got[max(0, i - 60):i + 60])
    if len(ctx.contexts) != 1 or ctx.depth != 1:
        return 'context stack depth %d (attribute %d) after balanced input, expected 1: %s' % (
            len(ctx.contexts), ctx.depth, [c.name for c in ctx.contexts])
    for ch, c in case['cats'].items():
        if ctx.whichCode(ch) != c:
            return 'category of %r after the input is %s, expected %s' % (ch, ctx.whichCode(ch), c)
    for ch, c in DEFCAT.items():
        if ch not in case['cats'] and ctx.whichCode(ch) != c:
            return 'category of %r after the input is %s, expected %s' % (ch, ctx.whichCode(ch), c)
    return None


def show(case):
    return case.get('src') or repr(case)


def corpus(tier):
    depth = 3 if tier != 'thorough' else 5
    for p in itertools.product(SHORT, repeat=2):
        yield {'enum': list(p), 'depth': depth - 1}
