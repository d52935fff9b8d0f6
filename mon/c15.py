r"""C15: the filename generator yields unique, clean names in template order.

A template is generated as a tree and spelled out; a history of requests, each with its own variable bindings,
is driven through one Filenames object and every name (or error) it gives is compared with what a model of the
documented rules allows.  Where the rules leave a choice (a numbered candidate that is taken: try the next
alternative or the next number of the same one) the model follows both.
"""
import itertools

ID = 'C15'
RULE = 'a history counts if at least one name came from a wildcard with a variable'
QUICK = (60000, 40)
THOROUGH = (4000000, 700)
REQUIRED = ['histories', 'requests', 'static_names', 'static_skipped', 'static_num', 'wild_names', 'num_names', 'num_padded',
            'words_cut', 'chars_replaced', 'ext_added', 'ext_present', 'alt_fallthrough', 'collision_var', 'collision_num',
            'errors', 'after_error', 'no_wildcard', 'reserved_many', 'same_var_twice', 'long_history', 'empty_value', 'unbound',
            'words_apart', 'directory', 'directory_dot']
ASSUMPTIONS = ['values are without "/" or a leading or trailing "." unless these are forbidden',
               'the replacement text contains no forbidden character',
               'variables in static names are bound when they are requested',
               'a character forbidden in names is not a digit']
BAD = ': #$%^&*!~`"\'=?/{}[]()|<>;\\,.'
DIRS = ['out/', 'v1.2/', 'a.d/b/']
VARS = ['id', 'title', 'ref', 'name']


# --- the model -------------------------------------------------------------------------------------------

def clean(v, cs):
    if cs:
        for c in cs[0]:
            v = v.replace(c, cs[1])
    return v


def candidate(parts, ns, num, cs, ext, tags):
    """Name spelled by the parts, or None if a variable isn't bound; second value tells if it is numbered."""
    out, numbered = '', False
    for p in parts:
        if p[0] == 'lit':
            out += p[1]
            continue
        name, width = p[1], p[2]
        if name == 'num':
            numbered = True
            d = str(num)
            if width and len(d) < width:
                tags.add('num_padded')
                d = '0' * (width - len(d)) + d
            out += d
            continue
        if name not in ns:
            tags.add('unbound')
            return None, False
        v = ns[name]
        if not v:
            tags.add('empty_value')
        if width:
            w = v.split()
            if v != ' '.join(w):
                tags.add('words_apart')
            if len(w) > width:
                tags.add('words_cut')
            v = ' '.join(w[:width])
        c = clean(v, cs)
        if c != v:
            tags.add('chars_replaced')
        out += c
    base = out[out.rfind('/') + 1:]
    if base != out:
        tags.add('directory_dot' if '.' in out[:-len(base) or None] else 'directory')
    if '.' in base.lstrip('.'):
        tags.add('ext_present')
    else:
        tags.add('ext_added')
        out += ext
    return out, numbered


class Unspecified(Exception):
    pass


def wild_choices(alts, ns, num, taken, cs, ext, tags):
    """All (name, next number) a request may give; (None, num) is an error."""
    res, seen = set(), set()
    todo = [(0, num, False)]
    while todo:
        st = todo.pop()
        if st in seen:
            continue
        seen.add(st)
        i, n, again = st
        if n > num + len(taken) + 2:
            continue
        if i == len(alts):
            if again:
                todo.append((0, n, False))
            else:
                res.add((None, n))
            continue
        c, numbered = candidate(alts[i], ns, n, cs, ext, tags)
        if c is None:
            todo.append((i + 1, n, again))
        elif c == '' or c.startswith('.'):
            raise Unspecified
        elif c not in taken:
            if i:
                tags.add('alt_fallthrough')
            if numbered:
                tags.add('num_names')
            res.add((c, n + 1 if numbered else n))
        elif numbered:
            tags.add('collision_num')
            todo.append((i, n + 1, again))
            todo.append((i + 1, n + 1, True))
        else:
            tags.add('collision_var')
            todo.append((i + 1, n, again))
    return res


class Model(object):
    def __init__(self, case):
        self.static = [list(x) for x in case['static']]
        w = case['wild']
        self.tags = set()
        if w is None:
            self.alts = [self.static.pop()] if self.static else []
            self.tags.add('no_wildcard')
        else:
            self.alts = [w[0] + a + w[2] for a in w[1]]
        self.cs, self.ext = case['charsub'], case['ext']
        self.taken = set(case['reserved'])
        self.states = {(0, 1)}

    def request(self, ns):
        """{name or None: states}"""
        out = {}
        tags = self.tags
        for i, num in self.states:
            while i < len(self.static):
                c, numbered = candidate(self.static[i], ns, num, self.cs, self.ext, tags)
                if c is None or c == '' or c.startswith('.'):
                    raise Unspecified
                if numbered:
                    tags.add('static_num')
                    if c in self.taken:
                        raise Unspecified
                    num += 1
                i += 1
                if c not in self.taken:
                    tags.add('static_names')
                    out.setdefault(c, set()).add((i, num))
                    break
                tags.add('static_skipped')
            else:
                for c, n in wild_choices(self.alts, ns, num, self.taken, self.cs, self.ext, tags):
                    out.setdefault(c, set()).add((i, n))
                    tags.add('wild_names')
        return out

    def took(self, name, states):
        self.states = states
        if name is not None:
            self.taken.add(name)


# --- the templates ---------------------------------------------------------------------------------------

def spell(parts, s, nxt=''):
    out = ''
    for k, p in enumerate(parts):
        if p[0] == 'lit':
            out += p[1]
            continue
        follow = nxt
        if k + 1 < len(parts):
            follow = parts[k + 1][1][:1] if parts[k + 1][0] == 'lit' else '$'
        sp = lambda: s.choice(['', '', '', ' '])
        if p[2]:
            t = '(%s%d%s)' % (sp(), p[2], sp())
            bare = True
        else:
            t = ''
            bare = not (follow.isalnum() or follow == '_')
        if bare and s.bool(3, 5):
            out += '$' + p[1] + t
        else:
            out += '${' + sp() + p[1] + sp() + '}' + t
    return out


def gen_var(s, num_ok=True):
    name = s.weighted([(4, 'num') if num_ok else (1, 'id'), (2, 'id'), (4, 'title'), (1, 'ref'), (1, 'name'), (1, 'jobname')])
    if name == 'num':
        width = s.choice([None, None, 1, 2, 3, 4])
    else:
        width = s.choice([None, None, 1, 2, 3])
    return ['var', name, width]


def gen_parts(s, lits, p_var):
    out = []
    n = s.weighted([(5, 1), (4, 2), (2, 3), (1, 4)])
    last = None
    for _ in range(n):
        if (s.bool(*p_var) or last == 'lit') and not (last == 'lit' and s.bool(1, 3)):
            out.append(gen_var(s))
            last = 'var'
        elif last != 'lit':
            out.append(['lit', s.choice(lits)])
            last = 'lit'
    return out or [['lit', 'x']]


def gen_value(s, name, pool, cs):
    if pool and s.bool(2, 5):
        return s.choice(pool)
    if name == 'id':
        v = s.choice(['sec', 'a', 'b', 'intro', 'fig1', '7', 'x'])
        if s.bool(1, 4):
            v += s.choice([':', '-', '_']) + s.choice(['a', 'b', '1'])
    elif name == 'ref':
        v = s.choice(['1', '2', '1-1', 'A', '3'])
    elif name == 'name':
        v = s.choice(['section', 'chapter', 'document'])
    else:
        words = ['A', 'b', 'of', 'The', 'one', '2', 'R&D', 'x=y', "it's", 'a/b', 'so?', '(q)', '50%', '$5', '\xe9t\xe9', '${id}',
                 '$num', 'a:b', '#1', 'end;', 'v1.0', 'c\\d', '[k]', '{z}']
        v = s.weighted([(5, ' '), (1, '  '), (1, '\n')]).join(s.choice(words) for _ in range(s.int(0, 5)))
        v = s.weighted([(12, v), (1, ' ' + v), (1, v + ' ')])
    bad = cs[0] if cs else ''
    if '/' not in bad:
        v = v.replace('/', '')
    if '.' not in bad:
        v = v.strip('.')
    return v


def gen(s, tier):
    lits = ['a', 'b', 'sect', 'x1', '-', '_', 'toc', 'index', 'node']
    static = []
    for _ in range(s.weighted([(4, 0), (4, 1), (3, 2), (2, 3), (1, 5)])):
        p = gen_parts(s, lits, (1, 5))
        p = [x for x in p if x[0] == 'lit' or x[1] in ('num', 'jobname', 'title')]
        if s.bool(1, 3):
            p.append(['lit', s.choice(['.html', '.txt', '.xhtml'])])
        if p:
            static.append(([['lit', s.choice(DIRS)]] if s.bool(1, 10) else []) + p)
    wild = None
    if s.bool(5, 6) or not static:
        pre = gen_parts(s, lits, (1, 4)) if s.bool(1, 4) else []
        post = ([['lit', s.choice(['.html', '.xml', '-z', '_'])]] if s.bool(1, 3) else [])
        if s.bool(1, 10):
            post = [['lit', '-']] + [gen_var(s)] + post
        if s.bool(1, 10):
            pre = [['lit', s.choice(DIRS)]] + pre
        alts = [gen_parts(s, lits, (3, 4)) for _ in range(s.weighted([(2, 1), (4, 2), (4, 3), (2, 4)]))]
        if s.bool(1, 2) and len(alts) > 1:
            alts[-1] = [['lit', 'sect'], ['var', 'num', s.choice([None, 2, 4])]]
        wild = [pre, alts, post]
    cs = s.weighted([(2, None), (4, [BAD, '-']), (1, [' :', '_']), (1, [' /&', '']), (1, ['/.', '--']), (1, [BAD, '_'])])
    ext = s.choice(['.html', '.html', '.xml', '', '.png'])
    words = []
    for p in static:
        words.append(spell(p, s))
    if wild:
        pre, alts, post = wild
        sp = lambda: s.choice(['', '', ' '])
        a = (sp() + ',' + sp()).join(spell(x, s) for x in alts)
        words.append(spell(pre, s, '[') + '[' + sp() + a + sp() + ']' + spell(post, s))
    spec = s.choice(['', ' ', '\n']) + s.choice([' ', '  ', '\n', '\t']).join(words) + s.choice(['', ' '])
    init = {}
    if s.bool(4, 5):
        init['jobname'] = s.choice(['job', 'my doc', 'x.y', 'r'])
        if not cs or '.' not in cs[0]:
            init['jobname'] = init['jobname'].replace('.', '')
    if s.bool(1, 10):
        init['title'] = 'Base Title'
    reqs, pool = [], {}
    for _ in range(s.weighted([(3, s.int(1, 4)), (6, s.int(4, 12)), (1, 12)])):
        b = {}
        for n, q in (('id', (1, 2)), ('title', (3, 5)), ('ref', (1, 3)), ('name', (1, 3))):
            if s.bool(*q):
                b[n] = gen_value(s, n, pool.get(n), cs)
                pool.setdefault(n, []).append(b[n])
        reqs.append(b)
    if s.bool(1, 60):
        reqs = reqs * s.int(10, 14)
    case = {'spec': spec, 'static': static, 'wild': wild, 'charsub': cs, 'ext': ext, 'init': init, 'reqs': reqs, 'reserved': []}
    # reserve some names that would be given
    if s.bool(1, 2):
        names = []
        m = Model(case)
        try:
            for b in reqs:
                r = m.request(dict(init, **b))
                name = sorted(r, key=str)[0]
                m.took(name, r[name])
                if name:
                    names.append(name)
        except Unspecified:
            pass
        if names:
            case['reserved'] = sorted(set(s.choice(names) for _ in range(s.int(1, 4))))
            if s.bool(1, 25) and m.alts:
                ns = dict(init, **reqs[-1])
                cand = set(candidate(m.alts[-1], ns, i, cs, ext, set())[0] for i in range(1, s.int(60, 260)))
                case['reserved'] = sorted(set(case['reserved']) | set(c for c in cand if c))
    return case


def corpus(tier):
    """All small templates over a few parts with all short histories."""
    def P(*xs):
        return [list(x) for x in xs]
    num, num2 = ('var', 'num', None), ('var', 'num', 2)
    idv, title, title1 = ('var', 'id', None), ('var', 'title', None), ('var', 'title', 1)
    pool = [P(idv), P(title), P(title1), P(('lit', 's'), num), P(('lit', 's'), num2), P(('lit', 'a')), P(title, ('lit', '-'), num),
            P(num, ('lit', '-'), title1)]
    statics = [[], [P(('lit', 'index'))], [P(('lit', 'f'), num), P(('lit', 'a'))], [P(('lit', 'a')), P(('lit', 'a')), P(('lit', 's1'))]]
    binds = [{}, {'id': 'a'}, {'title': 'a b'}, {'id': 's1', 'title': 'a c'}]
    depth = 4 if tier == 'quick' else 5
    hist = list(itertools.product(binds, repeat=depth))
    step = 41 if tier == 'quick' else 3
    k = 0
    from .core import Src
    for st in statics:
        for n in (1, 2, 3):
            for alts in itertools.product(pool, repeat=n):
                if n == 3 and tier == 'quick' and (k % 3):
                    k += 1
                    continue
                k += 1
                spec = ' '.join(plain(p) for p in st) + ' [' + ', '.join(plain(a) for a in alts) + ']'
                for h in hist[k % step::step]:
                    yield {'spec': spec, 'static': st, 'wild': [[], list(alts), []], 'charsub': [BAD, '-'], 'ext': '.html',
                           'init': {}, 'reqs': list(h), 'reserved': [] if k % 2 else ['s1.html', 'a-b.html']}


def plain(parts):
    return ''.join(p[1] if p[0] == 'lit' else '${%s}%s' % (p[1], '(%d)' % p[2] if p[2] else '') for p in parts)


# --- driving the code ------------------------------------------------------------------------------------

def run(case, obs):
    from plasTeX.Filenames import Filenames
    m = Model(case)
    init = dict(case['init'])
    f = Filenames(case['spec'], list(case['charsub']) if case['charsub'] else None, dict(init), case['ext'],
                  dict.fromkeys(case['reserved']) or None)
    obs.hit('histories')
    if len(case['reserved']) > 100:
        obs.hit('reserved_many')
    if len(case['reqs']) > 60:
        obs.hit('long_history')
    for parts in case['static'] + ([case['wild'][0] + a + case['wild'][2] for a in case['wild'][1]] if case['wild'] else []):
        v = [p[1] for p in parts if p[0] == 'var']
        if len(v) != len(set(v)):
            obs.hit('same_var_twice')
    issued, msg, failed, wild = [], None, False, False
    for k, b in enumerate(case['reqs']):
        if msg:
            break
        try:
            allowed = m.request(dict(init, **b))
        except Unspecified:
            break
        obs.hit('requests')
        for n in sorted(b):
            f.variables[n] = b[n]
        try:
            name = f()
        except StopIteration as e:
            msg = 'request %d: StopIteration' % k
            break
        except Exception as e:
            obs.hit('errors')
            failed = True
            if None not in allowed:
                msg = 'request %d %r: error %s: %s instead of %s; issued %s' % (k, b, type(e).__name__, e, sorted(allowed), issued[-6:])
                break
            m.took(None, allowed[None])
            f.variables.clear()
            f.variables.update(init)
            continue
        if not isinstance(name, str):
            msg = 'request %d %r: gave %r; issued %s' % (k, b, name, issued[-6:])
        elif name in issued or name in case['reserved']:
            msg = 'request %d %r: %r was already given or is reserved; issued %s' % (k, b, name, issued[-6:])
        elif name not in allowed:
            msg = 'request %d %r: %r instead of %s; issued %s' % (k, b, name, sorted(allowed, key=str), issued[-6:])
        else:
            if failed:
                obs.hit('after_error')
            m.took(name, allowed[name])
            issued.append(name)
    for t in m.tags:
        obs.hit(t)
    obs.nontrivial = 'wild_names' in m.tags
    obs.seen('names', len(set(issued)))
    return msg


def show(case):
    return 'spec=%r charsub=%r ext=%r init=%r reserved=%r reqs=%r' % (case['spec'], case['charsub'], case['ext'], case['init'],
                                                                 case['reserved'][:8], case['reqs'][:14])
