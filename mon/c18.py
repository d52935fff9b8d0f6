r"""C18: the index lists every entry exactly once, under its key, in collation order.

Documents with generated \index entries are parsed; the tree of index lines, the destinations of every line, the
letter groups and their columns are compared with the multiset of entries that was written.
"""
import itertools
import unicodedata

ID = 'C18'
RULE = 'a document counts if it has at least two entries'
QUICK = (6000, 50)
THOROUGH = (120000, 780)
REQUIRED = ['documents', 'entries', 'merged', 'sub', 'subsub', 'sort_at', 'see', 'seealso', 'fmt', 'quoted', 'accent_cmd', 'accented',
            'symbol_initial', 'digit_initial', 'empty_parent', 'markup', 'same_text_markup', 'after_printindex', 'in_title', 'in_footnote',
            'in_cell', 'in_caption', 'in_item', 'in_arg', 'theindex', 'groups', 'multi_col', 'cols1', 'cols2', 'cols3', 'cols4', 'ties',
            'see_special', 'mixed_case']
ASSUMPTIONS = ['keys without outer blanks and not empty', 'the same text is always written the same way within a document',
               'collation keys are those of the installed pyuca; equal collation keys may come in any order']

ACC = {'\xe9': "\\'e", '\xf6': '\\"{o}', '\xe0': '\\`{a}', '\xf1': '\\~n', '\xea': '\\^e', '\xe7': '\\c{c}', '\xfc': '\\"u'}
SPELL = {'%': '\\%', '&': '\\&', '#': '\\#', '$': '\\$', '!': '"!', '@': '"@', '|': '"|', '"': '""', '_': '\\_'}
BASE = {'\xe6': 'A', '\xc6': 'A', '\xf8': 'O', '\xd8': 'O', '\u0153': 'O', '\xdf': 'S', '\u0142': 'L', '\u0111': 'D', '\u0131': 'I'}
WORDS = ['a', 'A', 'b', 'B', 'ab', 'Ab', 'AB', 'abc', 'b c', 'B c', 'zeta', 'Zeta', 'alpha', 'alphabet', 'al pha', '\xe9t\xe9', '\xc9cole',
         'ecole', '\xf6l', 'ol', 'Ol', '\xe0', '\xe6ther', 'az', 'aether', '\xf8re', '\u0153uvre', 'of', '\u0142ow', '1', '10', '2', '2a',
         'x1', 'x10', 'x2', '+', '-', '!', 'a!b', 'c@d', '@home', '|', 'p|q', '"', 'say "hi"', '%', '50%', 'R&D', '&', '#1', '$5', '_',
         '_x', '\u2192', '\u2603', '\xa7', '*', '(a)', '[b]', '=', '<', '\xf1u', 'nu', '\xea', '\xe7a', 'ca', '\xfcb', 'Ub', 'uB',
         '\xdfe', 'se', 'st', 'ij', '.', ',x', '/', '?']
MARK = ['textbf', 'emph']


def initial(text):
    """Heading letter, or '' for a symbol."""
    c = text[:1]
    if c in BASE:
        return BASE[c]
    d = unicodedata.normalize('NFD', c)[:1]
    return d.upper() if d.isascii() and d.isalpha() else ''


def spelled(text, how):
    out = ''
    for c in text:
        if c in SPELL:
            out += SPELL[c]
        elif how == 1 and c in ACC:
            out += ACC[c]
        else:
            out += c
    return out


def gen(s, tier):
    n = s.weighted([(2, s.int(1, 3)), (5, s.int(3, 10)), (3, s.int(10, 24)), (1, s.int(24, 50))])
    few = [s.choice(WORDS) for _ in range(s.int(2, 12))]
    how = {}
    comps = []
    for _ in range(s.int(2, 10)):
        t = s.choice(few)
        how.setdefault(t, 1 if s.bool(1, 3) else 0)
        if any(c in ACC and t[i + 1:i + 2].isalpha() and ACC[c][-1] != '}' and False for i, c in enumerate(t)):
            how[t] = 0
        m = s.weighted([(6, ''), (1, 'textbf'), (1, 'emph'), (1, 'math')])
        if m == 'math':
            t = s.choice(['x', 'y', 'z'])
            how.setdefault(t, 0)
        sort = s.weighted([(5, None), (2, s.choice(few)), (1, t)])
        if m == 'math' and sort is None:
            sort = s.choice(few)
        if sort is not None:
            how.setdefault(sort, 0)
        comps.append([sort, t, m])
    paths = []
    for _ in range(s.int(1, max(1, n))):
        paths.append([list(s.choice(comps)) for _ in range(s.weighted([(5, 1), (4, 2), (2, 3)]))])
    entries = []
    for _ in range(n):
        p = s.choice(paths)
        if s.bool(1, 4):
            p = p[:s.int(1, len(p))]
        f = s.weighted([(6, ''), (1, 'textbf'), (1, 'emph'), (1, 'see'), (1, 'seealso')])
        arg = s.choice(['q', 'b c', 'x!y', 'u@v', '\\emph{w}', 'k|l']) if f in ('see', 'seealso') else ''
        place = s.weighted([(6, 'par'), (1, 'title'), (1, 'footnote'), (1, 'cell'), (1, 'caption'), (1, 'item'), (1, 'arg'), (1, 'group'),
                            (1, 'quote')])
        entries.append({'p': p, 'f': f, 'a': arg, 'at': place})
    return {'entries': entries, 'how': how, 'cols': s.int(1, 4), 'print': s.int(0, n) if s.bool(1, 4) else n, 'env': s.bool(1, 10),
            'nl': s.bool(1, 6)}


def corpus(tier):
    """All sequences of up to three entries over a few paths."""
    def c(t, sort=None, m=''):
        return [sort, t, m]
    P = [[c('a')], [c('a'), c('x')], [c('a'), c('y')], [c('a', None, 'textbf')], [c('a', None, 'textbf'), c('x')], [c('b', 'a')],
         [c('b')], [c('+')], [c('a'), c('x'), c('u')]]
    k = 0
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for ps in itertools.product(P, repeat=n):
            k += 1
            if n == 4 and k % 2:
                continue
            yield {'entries': [{'p': p, 'f': '', 'a': '', 'at': 'par'} for p in ps], 'how': {}, 'cols': k % 4 + 1, 'print': n, 'env': False,
                   'nl': False}


def entry_source(e, how):
    parts = []
    for sort, t, m in e['p']:
        d = spelled(t, how.get(t, 0))
        if m == 'math':
            d = '$' + d + '$'
        elif m:
            d = '\\%s{%s}' % (m, d)
        parts.append((spelled(sort, how.get(sort, 0)) + '@' if sort is not None else '') + d)
    f = ''
    if e['f']:
        f = '|' + e['f'] + ('{%s}' % e['a'] if e['a'] else '')
    return '!'.join(parts) + f


def source(case):
    out = ['\\documentclass{article}\\usepackage{makeidx}\\makeindex\\begin{document}\nStart\n\n']
    pr = '\\begin{theindex}\\item foo\\end{theindex}' if case['env'] else '\\printindex'
    for k, e in enumerate(case['entries']):
        if k == case['print']:
            out.append('\n\n' + pr + '\n\n')
        i = '\\index{%s}' % entry_source(e, case['how'])
        if case['nl']:
            i = i.replace(' ', '\n')
        w = 'w%d' % k
        t = e['at']
        if t == 'par':
            out.append('%s%s\n%s' % (w, i, '\n' if k % 3 == 0 else ''))
        elif t == 'title':
            out.append('\\section{%s%s}\n' % (w, i))
        elif t == 'footnote':
            out.append('%s\\footnote{n%s}\n' % (w, i))
        elif t == 'cell':
            out.append('\\begin{tabular}{cc}a&%s%s\\\\b&c\\end{tabular}\n' % (w, i))
        elif t == 'caption':
            out.append('\\begin{figure}x\\caption{%s%s}\\end{figure}\n' % (w, i))
        elif t == 'item':
            out.append('\\begin{itemize}\\item %s%s\\item b\\end{itemize}\n' % (w, i))
        elif t == 'arg':
            out.append('\\textbf{%s%s}\n' % (w, i))
        elif t == 'group':
            out.append('{\\em %s%s}\n' % (w, i))
        else:
            out.append('\\begin{quote}%s%s\\end{quote}\n' % (w, i))
    if case['print'] >= len(case['entries']):
        out.append('\n\n' + pr + '\n')
    return ''.join(out) + '\\end{document}'


_coll = []


def collate(t):
    if not _coll:
        try:
            from pyuca.collator import Collator_10_0_0
            _coll.append(Collator_10_0_0().sort_key)
        except ImportError:
            _coll.append(lambda x: x.lower())
    return _coll[0](t)


def expected(case):
    """Tree of lines: {(sort, text, markup): [[entry numbers], subtree]}"""
    top = {}
    for k, e in enumerate(case['entries']):
        level = top
        for sort, t, m in e['p']:
            node = level.setdefault((t if sort is None else sort, t, m), [[], {}])
            level = node[1]
        node[0].append(k)
    return top


def markup(key):
    for n in key:
        if n.nodeType == 1 and n.nodeName in ('textbf', 'emph', 'math'):
            return n.nodeName
    return ''


def norm(t):
    return str(t).replace('\u2019', "'").replace('\u2013', '--').replace('\xa0', ' ')


def check_level(nodes, exp, case, occ, obs, where):
    got = []
    for n in nodes:
        got.append((norm(n.sortkey), norm(n.key.textContent), markup(n.key)))
    if len(got) != len(set(got)) or set(got) != set(exp):
        return 'lines %sare %s instead of %s' % (where, got, sorted(exp))
    keys = [collate(g[0]) for g in got]
    for i in range(len(keys) - 1):
        if keys[i] > keys[i + 1]:
            return 'lines %sare not ordered: %r before %r' % (where, got[i], got[i + 1])
        if keys[i] == keys[i + 1]:
            obs.hit('ties')
    texts = [g[1] for g in got]
    if len(set(texts)) < len(texts):
        obs.hit('same_text_markup')
    for g, n in zip(got, nodes):
        occs, sub = exp[g]
        pages = list(n.pages)
        if len(pages) != len(occs):
            return 'line %s%r has %d page references instead of %d' % (where, g, len(pages), len(occs))
        if len(occs) > 1:
            obs.hit('merged')
        if not occs:
            obs.hit('empty_parent')
        for p, k in zip(pages, occs):
            f = case['entries'][k]['f']
            if p.attributes is not occ[k].attributes:
                j = [i for i, o in enumerate(occ) if p.attributes is o.attributes]
                return 'line %s%r refers to occurrence %s instead of %d' % (where, g, j, k)
            if bool(p.see) != (f == 'see') or bool(p.seealso) != (f == 'seealso') or bool(p.normal) != (f not in ('see', 'seealso')):
                return 'reference %d of line %s%r is see=%s seealso=%s' % (k, where, g, p.see, p.seealso)
            if f in ('textbf', 'emph') and not find(occ[k], f, []):
                return 'reference %d of line %s%r is not shown in \\%s' % (k, where, g, f)
        shown = [norm(''.join(x.textContent for x in p.childNodes)) for p, k in zip(pages, occs) if case['entries'][k]['f'] not in ('see', 'seealso')]
        if '' in shown or len(set(shown)) != len(shown):
            return 'references of line %s%r are shown as %s' % (where, g, shown)
        obs.hit('shown', len(shown))
        msg = check_level(list(n.childNodes), sub, case, occ, obs, where + 'below %r ' % g[1])
        if msg:
            return msg
    return None


def find(node, name, out):
    at = getattr(node, 'attributes', None)
    if at:
        for k, v in at.items():
            if k != 'self' and getattr(v, 'nodeType', None) is not None and not isinstance(v, str):
                find(v, name, out)
    for c in node.childNodes:
        if c.nodeType == 1 and c.nodeName == name:
            out.append(c)
        if c.nodeType != 3:
            find(c, name, out)
    return out


def run(case, obs):
    from plasTeX.TeX import TeX
    tex = TeX()
    doc = tex.ownerDocument
    doc.config['document']['index-columns'] = case['cols']
    src = source(case)
    tex.input(src)
    tex.parse()
    obs.hit('documents')
    obs.hit('cols%d' % case['cols'])
    obs.nontrivial = len(case['entries']) > 1
    occ = find(doc, 'index', [])
    if len(occ) != len(case['entries']):
        return '%d index nodes in the document instead of %d' % (len(occ), len(case['entries']))
    for k, e in enumerate(case['entries']):
        tok = ''.join(str(t) for t in occ[k].attributes['entry'])
        raw = entry_source(e, case['how']).replace('\\', '')
        if tok.replace(' ', '') != raw.replace(' ', ''):
            return 'entry %d is %r instead of %r' % (k, tok, raw)
        tags(e, k, case, obs)
    ix = find(doc, 'theindex' if case['env'] else 'printindex', [])
    if len(ix) != 1:
        return '%d indexes instead of one' % len(ix)
    ix = ix[0]
    top = list(ix.childNodes)
    msg = check_level(top, expected(case), case, occ, obs, '')
    if msg:
        return msg
    groups = ix.groups
    seen, flat = {}, []
    for g in groups:
        obs.hit('groups')
        cols = list(g)
        if len(cols) != case['cols']:
            return 'group %r has %d columns instead of %d' % (g.title, len(cols), case['cols'])
        items = [x for c in cols for x in c]
        if len([c for c in cols if len(c)]) > 1:
            obs.hit('multi_col')
        if not items:
            return 'group %r is empty' % g.title
        flat += items
        letter = g.title if len(g.title) == 1 and g.title.isascii() and g.title.isalpha() else ''
        if letter:
            if letter in seen:
                return 'two groups %r' % letter
            seen[letter] = 1
            if letter != letter.upper():
                return 'group title %r' % letter
        elif not g.title or all(c.isalpha() for c in g.title) and len(g.title) < 4:
            return 'group title %r' % g.title
        for it in items:
            want = initial(norm(it.sortkey))
            if want != letter:
                return 'entry %r is in the group %r' % (norm(it.sortkey), g.title)
    if len(flat) != len(top) or not all(a is b for a, b in zip(flat, top)):
        return 'the columns hold %s instead of %s' % ([norm(x.key.textContent) for x in flat], [norm(x.key.textContent) for x in top])
    return None


def tags(e, k, case, obs):
    obs.hit('entries')
    obs.seen('paths', repr(e['p']))
    p = e['p']
    if len(p) > 1:
        obs.hit('sub')
    if len(p) > 2:
        obs.hit('subsub')
    if any(c[0] is not None for c in p):
        obs.hit('sort_at')
    if any(c[2] for c in p):
        obs.hit('markup')
    if e['f'] in ('see', 'seealso'):
        obs.hit(e['f'])
        if any(c in e['a'] for c in '!@|'):
            obs.hit('see_special')
    elif e['f']:
        obs.hit('fmt')
    for c in p:
        if any(x in c[1] for x in '!@|"'):
            obs.hit('quoted')
        if any(x in c[1] for x in ACC):
            obs.hit('accent_cmd' if case['how'].get(c[1]) else 'accented')
        if c[1] != c[1].lower():
            obs.hit('mixed_case')
    first = (p[0][0] if p[0][0] is not None else p[0][1])[0]
    if first.isdigit():
        obs.hit('digit_initial')
    elif not initial(first):
        obs.hit('symbol_initial')
    if k >= case['print']:
        obs.hit('after_printindex')
    if case['env']:
        obs.hit('theindex')
    obs.hit('in_' + e['at'])


def show(case):
    return 'cols=%d\n%s' % (case['cols'], source(case))
