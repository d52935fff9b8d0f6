"""C01: every token stream is compared, token by token, with a reference lexer."""
import contextlib
import itertools
import os
import tempfile

ID = 'C01'
RULE = ('random texts over an adversarial alphabet x random category tables, with category changes, group '
        'push/pop, token push-back and nested inputs interleaved with reading; plus all strings up to a length '
        'over 9 lexically distinct characters. Non-trivial: at least one token or dropped character and at '
        'least two different lexer situations (state x category) met.')
QUICK = (80000, 45)
THOROUGH = (700000, 700)
REQUIRED = ['tokens', 'situations', 'enumerated_strings', 'catcode_changes', 'text_from_file', 'whichcode_lookups']
ASSUMPTIONS = ['a line ends at "\\n" (also when written ^^J); "\\n" is given any category except 0, 7, 11, 14',
               'consecutive paragraph tokens are merged into one, as the tokenizer documents',
               'an escape character at the end of a line is control space']

N, M, S = 'N', 'M', 'S'
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
CLASSES = {0: 'EscapeSequence', 1: 'BeginGroup', 2: 'EndGroup', 3: 'MathShift', 4: 'Alignment',
           6: 'Parameter', 7: 'Superscript', 8: 'Subscript', 10: 'Space', 11: 'Letter', 12: 'Other'}


def default_table():
    t = {c: 11 for c in LETTERS}
    t.update({'\\': 0, '{': 1, '}': 2, '$': 3, '&': 4, '\n': 5, '#': 6, '^': 7, '_': 8, '\0': 9,
              ' ': 10, '\t': 10, '\r': 10, '\f': 10, '~': 13, '%': 14})
    return t


def verbatim_table():
    return {c: 11 for c in LETTERS}


class OutOfDomain(Exception):
    pass


class RefLexer(object):
    """TeX's rules (tex.web 343-356) over one text; `cat` is asked at each look."""

    def __init__(self, text, cat, obs):
        self.t, self.p, self.state, self.cat, self.prev, self.obs = text, 0, N, cat, None, obs
        self.lines = 0

    def look(self, p):
        """(char, category, position after) of the possibly ^^-coded character at p."""
        t = self.t
        c = t[p]
        p += 1
        k = self.cat(c)
        while k == 7 and p + 1 < len(t) and t[p] == c and ord(t[p + 1]) < 128:
            x = t[p + 1]
            if x == '\n':
                raise OutOfDomain
            p += 2
            y = t[p] if p < len(t) else ''
            if x in '0123456789abcdef' and y and y in '0123456789abcdef':
                c = chr(int(x + y, 16))
                p += 1
            else:
                c = chr(ord(x) - 64 if ord(x) >= 64 else ord(x) + 64)
            k = self.cat(c)
            if self.obs is not None:
                self.obs.hit('hat_decoded')
        if c == '\n' and k in (0, 7, 11, 14):
            raise OutOfDomain
        return c, k, p

    def skipline(self):
        q = self.t.find('\n', self.p)
        self.p = len(self.t) if q < 0 else q + 1

    def emit(self, tok):
        self.prev = tok
        return tok

    def next(self):
        while self.p < len(self.t):
            c, k, self.p = self.look(self.p)
            st = self.state
            if self.obs is not None:
                self.obs.hit('situations')
                self.obs.seen('state_x_category', '%s/%d' % (st, k))
            nl = c == '\n'
            if k in (9, 15):
                if nl:
                    self.state = N
                continue
            if k == 10:
                if nl:
                    self.state = N
                elif st == M:
                    self.state = S
                if st == M:
                    return self.emit((10, ' '))
                continue
            if k == 14:
                self.skipline()
                self.state = N
                continue
            if k == 5:
                if not nl:
                    self.skipline()
                self.state = N
                if st == M:
                    return self.emit((10, ' '))
                if st == N and self.prev != (0, 'par'):
                    return self.emit((0, 'par'))
                continue
            if k == 0:
                if self.p >= len(self.t):
                    self.state = M
                    return self.emit((0, ''))
                c, k, q = self.look(self.p)
                if k == 11:
                    w = ''
                    while k == 11:
                        w += c
                        self.p = q
                        if q >= len(self.t):
                            break
                        r = q
                        c, k, q = self.look(r)
                        # tex.web 355: a ^^ sequence met while scanning a name is reduced in the buffer
                        if q - r > 1:
                            self.t = self.t[:r] + c + self.t[q:]
                            q = r + 1
                    self.state = S
                    return self.emit((0, w))
                self.p = q
                if k == 5:
                    if c != '\n':
                        self.skipline()
                    self.state = N
                    return self.emit((0, ' '))
                self.state = N if c == '\n' else S if k == 10 else M
                return self.emit((0, c))
            self.state = N if nl else M
            if k == 13:
                return self.emit((0, 'active::' + c))
            return self.emit((k, c))
        return None


class RefStream(object):
    """Inputs stack + token push-back, as a client sees them."""

    def __init__(self, obs):
        self.tables = [default_table()]
        self.stack = []
        self.obs = obs

    def cat(self, c):
        return self.tables[-1].get(c, 12)

    def input(self, text):
        self.stack.append([RefLexer(text, self.cat, self.obs), []])

    def next(self):
        while self.stack:
            lx, buf = self.stack[-1]
            if buf:
                return buf.pop(0)
            t = lx.next()
            if t is not None:
                return t
            self.stack.pop()
        return None


ALPHA = list('\\\\\\\\{}$&#^^^_~%% \t\n\n\n\r\0@ab1zZ59.') + ['é', '\x7f', 'ß', '→', '\U0001d4d0', '\x1e', '\x0c', '`']
NLCODES = [5, 5, 5, 5, 5, 5, 10, 12, 13, 9, 15, 1, 2, 3, 4, 6, 8]


def chunk(src):
    return src.weighted([
        (10, 'ch'), (6, 'cw'), (4, 'cs'), (3, 'cm'), (4, 'bl'), (5, 'hat'), (6, 'word'), (3, 'sp'), (3, 'nl')])


def gen_text(src, n):
    out = []
    for _ in range(src.int(1, n)):
        k = chunk(src)
        if k == 'ch':
            out.append(src.choice(ALPHA))
        elif k == 'cw':
            out.append('\\' + src.choice(['foo', 'a', 'f@o', '@', 'bar@', 'par', 'x1', 'Ab', 'é', 'par ', 'zz@@'])
                       + src.choice(['', ' ', '  ', '\n', '\0', '%', '@']))
        elif k == 'cs':
            out.append('\\' + src.choice(ALPHA + [' ', '\n', '\t', '\\', '']) + src.choice(['', ' ', ' \n', '\n\n']))
        elif k == 'cm':
            out.append('%' + src.choice(['', 'x y', '\\foo', '^^M a', '{']) + src.choice(['\n', '', '\n  ', '\n\n']))
        elif k == 'bl':
            out.append(src.choice(['\n\n', '\n \n', ' \n\t\n', '\n\n\n', '\n\n  \n\n', '\n%\n\n']))
        elif k == 'hat':
            h = src.choice(['^^', '^^', '^^', '^', '^^^', '__', '~~', '^^^^'])
            out.append(h + src.choice(['M', 'I', '@', '?', 'A', '5e', '5', 'f', '41', '0a', '7e', '61', 'ff', 'e', 'é',
                                       '^', '\x1e', '', '5e^41', ' ', '\\', '25', '5c', '5cfoo ', 'J', 'a\n', '7f', '00']))
        elif k == 'word':
            out.append(''.join(src.choice(list('abcxyz@019')) for _ in range(src.int(1, 4))))
        elif k == 'sp':
            out.append(src.choice([' ', '  ', '\t', ' \t ', '\r', '\f ']))
        else:
            out.append(src.choice(['\n', '\r\n', '\n ', ' \n']))
    return ''.join(out)


POOL = list('\\{}$&#^_~%@ab zZ1\t\r\0*|<!') + ['\n', 'é', '\x0c', '→']


def gen_cat(src):
    c = src.choice(POOL)
    if c == '\n':
        return [c, src.choice(NLCODES)]
    return [c, src.weighted([(3, 12), (2, 11), (2, 0), (2, 13), (2, 14), (2, 5), (2, 10), (2, 7), (2, 9), (1, 15),
                             (1, 1), (1, 2), (1, 3), (1, 4), (1, 6), (1, 8)])]


def gen(src, tier):
    kind = src.weighted([(5, 'default'), (2, 'at'), (1, 'verbatim'), (3, 'few'), (3, 'perm')])
    cats = []
    if kind == 'at':
        cats.append(['@', 11])
    elif kind == 'few':
        cats = [gen_cat(src) for _ in range(src.int(1, 5))]
    elif kind == 'perm':
        chars = list('\\{}$&#^_~% @\0')
        codes = [0, 1, 2, 3, 4, 6, 7, 8, 13, 14, 10, 12, 9]
        cats = [list(x) for x in zip(chars, src.shuffle(codes))]
        if src.bool(1, 4):
            cats.append(['\n', src.choice(NLCODES)])
        cats += [gen_cat(src) for _ in range(src.int(0, 3))]
    ops = []
    for _ in range(src.weighted([(5, 0), (2, 1), (2, 2), (1, 3), (1, 6)])):
        k = src.int(0, 12)
        o = src.weighted([(6, 'cat'), (3, 'push'), (2, 'grp'), (2, 'endgrp'), (1, 'verb'), (2, 'input')])
        if o == 'cat':
            ops.append([k, 'cat'] + gen_cat(src))
        elif o == 'push':
            ops.append([k, 'push', src.int(1, 4), src.int(0, 1)])
        elif o == 'input':
            ops.append([k, 'input', gen_text(src, 4)])
        else:
            ops.append([k, o])
    text = gen_text(src, 10 if tier == 'quick' else 16)
    return {'kind': kind, 'cats': cats, 'ops': ops, 'text': text,
            'bytes': int('\r' not in text and src.bool(1, 12)),
            # how the text gets to the tokenizer
            'by': src.weighted([(18, 'string'), (1, 'file'), (1, 'path'), (1, 'bom'), (1, 'latin')]) if '\r' not in text else 'string'}


ENUM = '\\a \n%^{5\0'


def corpus(tier):
    n = 5 if tier == 'quick' else 7
    plen = 2 if tier == 'quick' else 4
    for alpha in (ENUM,) + (('\\ab@ \n^Ma',) if tier != 'quick' else ()):
        for k in range(0, plen):
            for p in itertools.product(alpha, repeat=k):
                yield {'enum': ''.join(p), 'alpha': alpha, 'more': 0, 'cats': []}
        for p in itertools.product(alpha, repeat=plen):
            yield {'enum': ''.join(p), 'alpha': alpha, 'more': n - plen, 'cats': []}
    for p in itertools.product('\\a@ \n^~', repeat=2):
        yield {'enum': ''.join(p), 'alpha': '\\a@ \n^~', 'more': 2, 'cats': [['@', 11], ['~', 7], [' ', 12]]}
        yield {'enum': ''.join(p), 'alpha': '\\a@ \n^~', 'more': 2, 'cats': [['a', 5], ['~', 9], ['@', 14]]}
        yield {'enum': ''.join(p), 'alpha': '\\a@ \n^~', 'more': 2, 'cats': [['\n', 13], ['@', 10], ['~', 0]]}
        yield {'enum': ''.join(p), 'alpha': '\\a@ \n^~', 'more': 2, 'cats': [['\n', 12], ['@', 15], ['a', 14]]}


def show(case):
    return repr(case)


def classify(tok):
    import plasTeX.Tokenizer as T
    k = tok.catcode
    if not isinstance(tok, T.Token):
        return 'not a token: %r' % (tok,)
    if k not in CLASSES or type(tok) is not getattr(T, CLASSES[k]):
        return 'token %r of class %s carries category %r' % (str(tok), type(tok).__name__, k)
    if type(tok).catcode != k:
        return 'token %r: class category %r, instance category %r' % (str(tok), type(tok).catcode, k)


def run_enum(case, obs):
    from plasTeX.TeX import TeX
    doc = TeX().ownerDocument
    for c, k in case['cats']:
        doc.context.catcode(c, k)
    table = default_table()
    table.update({c: k for c, k in case['cats']})
    cat = lambda c: table.get(c, 12)
    for n in range(case['more'] + 1):
        for x in itertools.product(case['alpha'], repeat=n):
            s = case['enum'] + ''.join(x)
            try:
                ref = []
                lx = RefLexer(s, cat, None)
                while True:
                    t = lx.next()
                    if t is None:
                        break
                    ref.append(t)
            except OutOfDomain:
                continue
            toks = list(TeX(ownerDocument=doc).input(s).itertokens())
            got = [(t.catcode, str(t)) for t in toks]
            obs.hit('enumerated_strings')
            obs.hit('tokens', len(got))
            if got != ref:
                return 'text %r\n expected %r\n observed %r' % (s, ref, got)
            for t in toks:
                m = classify(t)
                if m:
                    return 'text %r: %s' % (s, m)


def run(case, obs):
    if 'enum' in case:
        return run_enum(case, obs)
    with contextlib.ExitStack() as stack:
        return observe(case, obs, stack)


def observe(case, obs, stack):
    from plasTeX import TeXDocument
    from plasTeX.TeX import TeX
    text = case['text']
    by = case.get('by', 'string')
    doc = None
    if by != 'string':
        # a file, named or opened
        encoding = {'bom': 'utf-8-sig', 'latin': 'latin-1'}.get(by, 'utf-8')
        try:
            data = text.encode(encoding)
        except UnicodeEncodeError:
            data, encoding = text.encode('utf-8'), 'utf-8'
        d = stack.enter_context(tempfile.TemporaryDirectory())
        path = os.path.join(d, 'in.tex')
        with open(path, 'wb') as f:
            f.write(data)
        obs.hit('text_from_file')
        doc = TeXDocument()
        doc.config['files']['input-encoding'] = 'utf-8' if encoding != 'latin-1' else encoding
    if by in ('path', 'bom', 'latin'):
        tex = TeX(doc, path)
        for source, _ in tex.inputs:
            stack.callback(source.source.close)
    else:
        tex = TeX(doc) if doc is not None else TeX()
    ctx = tex.ownerDocument.context
    ref = RefStream(obs)
    seen0 = len(obs.sets['state_x_category'])
    sit0 = obs.count['situations']

    def setcat(c, k):
        ctx.catcode(c, k)
        ref.tables[-1] = dict(ref.tables[-1])
        ref.tables[-1][c] = k
        obs.hit('catcode_changes')

    def verb():
        ctx.setVerbatimCatcodes()
        ref.tables[-1] = verbatim_table()

    def lookups():
        for c in POOL:
            a, b = ctx.whichCode(c), ref.cat(c)
            obs.hit('whichcode_lookups')
            if a != b:
                return 'category of %r: expected %d, observed %r' % (c, b, a)

    if case['kind'] == 'verbatim':
        verb()
    for c, k in case['cats']:
        setcat(c, k)
    m = lookups()
    if m:
        return m
    if by == 'file':
        tex.input(stack.enter_context(open(path, encoding='utf-8', newline='')))
    elif by == 'string':
        tex.input(text.encode() if case['bytes'] else text)
    ref.input(text)
    it = tex.itertokens()
    ops = sorted(case['ops'], key=lambda o: o[0])
    got, want, recent = [], [], []
    limit = 40 * (len(text) + sum(len(str(o)) for o in ops)) + 200
    i = 0
    try:
        while True:
            while ops and ops[0][0] <= i:
                o = ops.pop(0)
                if o[1] == 'cat':
                    setcat(o[2], o[3])
                elif o[1] == 'verb':
                    verb()
                elif o[1] == 'grp':
                    ctx.push()
                    ref.tables.append(ref.tables[-1])
                elif o[1] == 'endgrp':
                    if len(ref.tables) > 1:
                        ctx.pop()
                        ref.tables.pop()
                elif o[1] == 'input':
                    tex.input(o[2])
                    ref.input(o[2])
                elif o[1] == 'push' and recent and ref.stack:
                    back = recent[-o[2]:]
                    if o[3]:
                        for t in reversed(back):
                            tex.pushToken(t)
                    else:
                        tex.pushTokens(back)
                    ref.stack[-1][1][0:0] = [(t.catcode, str(t)) for t in back]
                    obs.hit('pushbacks')
                    recent = []
                m = lookups()
                if m:
                    return 'after %r: %s' % (o, m)
            try:
                t = next(it)
            except StopIteration:
                t = None
            w = ref.next()
            if t is None or w is None:
                if t is None and w is None:
                    break
                return 'after %r\n expected %r\n observed %r' % (want[-6:], w, None if t is None else (t.catcode, str(t)))
            recent.append(t)
            got.append((t.catcode, str(t)))
            want.append(w)
            obs.hit('tokens')
            obs.seen('token_classes', t.catcode)
            if got[-1] != w:
                return 'token %d: expected %r, observed %r (before: %r)' % (i, w, got[-1], want[:-1][-8:])
            m = classify(t)
            if m:
                return m
            i += 1
            if i > limit:
                return 'more than %d tokens' % limit
    except OutOfDomain:
        obs.nontrivial = False
        obs.hit('out_of_domain')
        return None
    obs.nontrivial = obs.count['situations'] - sit0 > 1
