r"""C14: every internal link of the rendered output lands on an existing target.

Documents of numbered objects with labels and references anywhere (those of C09), footnotes, index entries and citations are
rendered with random split levels, tables of contents, base URLs and themes.  All links of all files are followed: the file
must have been written, the fragment must be the identifier of exactly one element of it, and a reference must lead to the
element of its object and display its number.
"""
import re
import urllib.parse
from html.parser import HTMLParser

from mon import c08, c09, render

ID = 'C14'
RULE = 'a document counts if it has at least one internal link'
QUICK = (900, 45)
THOROUGH = (20000, 800)
REQUIRED = ['documents', 'links', 'fragments', 'refs', 'ref_other_file', 'ref_same_file', 'on_sec', 'on_eq', 'on_row', 'on_cap', 'on_thm',
            'on_item', 'note', 'index_entries', 'citation', 'titled', 'dangling', 'base_url', 'toc_non_files', 'reachable', 'html5_default', 'html5_minimal',
            'xhtml_default', 'ids', 'body_toc', 'files_many', 'eqref', 'pageref', 'autoref', 'hyperref', 'footnotemark']
ASSUMPTIONS = ['labels and objects as in C09; no commands in titles that LaTeX forbids there',
               'links are the href attributes of a elements and of link elements for navigation; external addresses are not links to the document',
               'reachability is checked for the themes that display a table of contents']

START, END = 'Zq%sz', 'Yq%sz'


class Deco(c09.Deco):
    """References between markers"""

    TWO = False

    def ref(self, math=False):
        t = c09.Deco.ref(self, math)
        if math:
            return t
        marks = self.case.setdefault('refmarks', {})
        k = abc(len(marks))
        c, n = self.case['refs'][-1]
        marks[k] = [c, n]
        return '%s %s %s' % (START % k, t, END % k)

    def cite(self):
        t = c09.Deco.cite(self)
        marks = self.case.setdefault('citemarks', {})
        k = abc(len(marks))
        marks[k] = self.case['cites'][-1][0]
        return 'Zx%sz %s Yx%sz' % (k, t, k)


def abc(n):
    w = ''
    for i in range(3):
        w = chr(97 + n % 25) + w
        n //= 25
    return w


INDEX = ['a', 'b', 'a!c', 'a!d', 'zeta', '1', '$x$', 'b!c!d', '+', 'a|see{b}', 'e|textbf', 'Alpha@a', '\xe9', 'a|(', 'a|)']


def gen(s, tier):
    case = c09.gen(s, tier, Deco)
    if case is None:
        return None
    body = case['body']

    def put(raw):
        body.insert(s.int(0, len(body)), ['raw', raw])
    n = s.weighted([(1, 0), (1, 1), (1, s.int(2, 6))])
    case['index'] = 0
    case['idx'] = []
    case['notes'] = 0
    if n:
        for i in range(n):
            e = s.choice(INDEX)
            put('Idx%sz\\index{%s}.\n' % (abc(i), e))
            if 'see' not in e:
                case['idx'].append(abc(i))
        case['index'] = n
    lone = s.bool(1, 6)     # marks without text
    for i in range(s.weighted([(2, 0), (1, 1), (1, 3)])):
        k = abc(i)
        put(s.choice(['fnm%sz\\footnote{Fnt%sz note}\n' % (k, k), 'fn\\footnote{A}\\footnote{B}\n', 'fn\\footnote[3]{A}\n'] +
                     (['fn\\footnotemark{}\n'] if lone else
                      ['fnm%sz\\footnotemark{}.\n\\footnotetext{Fnt%sz}\n' % (k, k), '\\footnotetext{Alone}\n',
                       'fnm%sz\\footnotemark[7]{} mid \\footnotetext[7]{Fnt%sz}\n' % (k, k)])))
    case['toc'] = s.bool(1, 3)
    if case['toc']:
        put('\\tableofcontents\n')
    case['lof'] = s.bool(1, 8)
    if case['lof']:
        put('\\listoffigures\n')
        put('\\listoftables\n')
    if n:
        body.append(['raw', '\\printindex\n'])
        case['pre'] += '\\usepackage{makeidx}\\makeindex\n'
    if s.bool(1, 3):
        case['pre'] += '\\title{Doc}\\author{Me}\n'
    case['theme'] = list(s.weighted([(4, ('HTML5', 'default')), (4, ('HTML5', 'minimal')), (5, ('XHTML', 'default'))]))
    case['split'] = s.weighted([(3, 2), (3, 1), (2, 0), (1, -1), (1, -10), (2, 3), (1, 6), (1, s.int(-10, 6))])
    case['tocdepth'] = s.weighted([(3, 3), (2, 1), (1, 2), (1, 10), (1, 0)])
    case['nonfiles'] = s.bool(1, 2)
    case['base'] = s.weighted([(5, ''), (1, 'http://example.org/d'), (1, 'http://example.org/d/'), (1, '/docs')])
    case['template'] = s.choice(['index [$id, sect$num(4)]', 'index [$title(2), x$num]', 'i p[$num]', 'index [$id, $title(4), sect$num(4)]'])
    case['more'] = [['html5', 'display-toc', s.bool(3, 4)], ['html5', 'localtoc-level', s.int(-2, 3)],
                    ['html5', 'breadcrumbs-level', s.int(-10, 3)]] if case['theme'][0] == 'HTML5' else []
    return case


def show(case):
    return '%s split %d toc-depth %d non-files %s base %r template %r %s depth %s\n%s' % (
        '/'.join(case['theme']), case['split'], case['tocdepth'], case['nonfiles'], case['base'], case['template'], case['more'],
        case['depth'], c08.source(case))


# ---------------------------------------------------------------- observation
VOID = {'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr', 'use'}


class Page(HTMLParser):
    def __init__(self, text):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.text = []          # pieces of text
        self.pos = 0
        self.open = []          # (tag, id record)
        self.all = []           # [start, end] of the open elements
        self.ids = {}           # identifier: [[start, end, tag], ...]
        self.dup = []
        self.links = []         # [tag, href, start, end, class]
        self.heads = []         # [start, end]
        self.index = []         # [start, end] of the lists of index entries
        self.feed(text)
        self.close()
        while self.open:
            self.pop()
        self.content = ''.join(self.text)

    def add(self, s):
        self.text.append(s)
        self.pos += len(s)

    def handle_starttag(self, tag, attrs):
        at = dict(attrs)
        recs = []
        names = {x for x in (at.get('id'), at.get('name') if tag == 'a' else None) if x is not None}
        for i in names:
            if i in self.ids:
                self.dup.append(i)
            rec = [self.pos, None, tag, self.all[-1] if self.all else None]
            self.ids.setdefault(i, []).append(rec)
            recs.append(rec)
        if at.get('href') is not None and tag in ('a', 'link'):
            if not (tag == 'link' and at.get('rel') in ('stylesheet', 'shortcut icon')):
                rec = [tag, at['href'], self.pos, None, at]
                self.links.append(rec)
                recs.append(rec)
        if re.match('h[1-6]$', tag):
            rec = [self.pos, None]
            self.heads.append(rec)
            recs.append(rec)
        if 'theindex' in (at.get('class') or ''):
            rec = [self.pos, None]
            self.index.append(rec)
            recs.append(rec)
        if at.get('alt'):
            self.add(' ' + at['alt'] + ' ')
        self.all.append([self.pos, None])
        recs.append(self.all[-1])
        self.open.append((tag, recs))
        if tag in VOID:
            self.pop()

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.handle_endtag(tag)

    def pop(self):
        tag, recs = self.open.pop()
        self.all.pop()
        for r in recs:
            r[r.index(None)] = self.pos

    def handle_endtag(self, tag):
        if tag in [t for t, r in self.open]:
            while self.open[-1][0] != tag:
                self.pop()
            self.pop()

    def handle_data(self, data):
        if not any(t in ('title', 'script', 'style') for t, r in self.open):
            self.add(data)


def resolve(case, page, href):
    """(file, fragment) of an internal link, None if it leads elsewhere"""
    base = case['base'].rstrip('/')
    if base and href.startswith(base):
        href = href[len(base):].lstrip('/')
    elif re.match(r'[a-z]+:|/', href):
        return None
    path, sep, frag = href.partition('#')
    return (path or page), (frag if sep else None)


def run(case, obs):
    opts = [('files', 'split-level', case['split']), ('files', 'filename', case['template']), ('document', 'toc-depth', case['tocdepth']),
            ('document', 'toc-non-files', case['nonfiles']), ('document', 'base-url', case['base']),
            ('document', 'sec-num-depth', case['depth'])] + [tuple(o) for o in case['more']]
    try:
        files = render.render(c08.source(case), case['theme'][0], case['theme'][1], opts)[1]
    except Exception as e:
        return 'rendering raises %r' % e
    model = c08.Model(case).run()
    numbers = {w[1]: w[2] for w in model.out}
    labels = {n.replace('\\pre', 'P').strip(): [kind, tag] for n, kind, tag, note in case['labels']}
    pages = {f: Page(t) for f, t in files.items() if f.endswith('.html')}
    start = case['template'].split()[0] + '.html'
    links = {}
    for f, p in pages.items():
        obs.hit('ids', len(p.ids))
        if p.dup:
            return 'the identifier %r occurs %d times in %s' % (p.dup[0], len(p.ids[p.dup[0]]), f)
        for tag, href, a, b, at in p.links:
            to = resolve(case, f, href)
            if to is None:
                if tag == 'a' and 'rel' not in at:
                    return 'the link %r in %s leads out of the document' % (href, f)
                continue
            obs.hit('links')
            target, frag = to
            if target not in pages:
                return 'the link %r in %s (%r) names a file that was not produced' % (href, f, p.content[a:b])
            if frag is not None:
                obs.hit('fragments')
                if frag not in pages[target].ids and urllib.parse.unquote(frag) not in pages[target].ids:
                    return 'the link %r in %s (%r) names no element of %s' % (href, f, p.content[a:b], target)
            if tag == 'a':
                links.setdefault(f, set()).add(target)
            cls = at.get('class') or ''
            if cls == 'footnote':
                obs.hit('footnote' if frag != 'footnotes' else 'footnotemark')
    # references
    seen = 0
    for f, p in pages.items():
        for m in re.finditer(r'Zq([a-z]{3})z(.*?)Yq\1z', p.content, re.S):
            c, name = case['refmarks'][m.group(1)]
            name = name.replace('\\pre', 'P')
            seen += 1
            here = [l for l in p.links if l[0] == 'a' and m.start() <= l[2] and l[3] <= m.end()]
            shown = ' '.join(m.group(2).split())
            if name not in labels:
                obs.hit('dangling')
                if here and c != 'hyperref':
                    return 'the dangling reference %s{%s} in %s is a link to %r' % (c, name, f, here[0][1])
                continue
            kind, tag = labels[name]
            number = numbers[tag]
            if number is None:
                continue
            obs.hit('refs')
            obs.hit('on_' + kind)
            obs.hit(c)
            if not here:
                return 'the reference %s{%s} in %s shows %r and is no link' % (c, name, f, shown)
            for tagname, href, a, b, at in here:
                text = ' '.join(p.content[a:b].split())
                ok = True
                if c == 'ref' or c == 'eqref':
                    ok = same(case, tag, number, text.strip('()') if c == 'eqref' else text)
                elif c == 'autoref':
                    ok = same(case, tag, number, text.split(' ')[-1])
                if not ok:
                    return 'the reference %s{%s} in %s shows %r, its target has the number %s' % (c, name, f, text, number)
                target, frag = resolve(case, f, href)
                obs.hit('ref_same_file' if target == f else 'ref_other_file')
                q = pages[target]
                if frag is None:
                    spans = q.heads[:2]
                else:
                    spans = q.ids.get(frag) or q.ids[urllib.parse.unquote(frag)]
                # An empty anchor stands for the element around it
                spans = [x[3] if x[0] == x[1] and len(x) > 3 and x[3] else x for x in spans]
                if not any(re.search(r'(?<![A-Za-z0-9])%s(?![0-9A-Za-z])' % tag, q.content[x[0]:x[1]]) for x in spans):
                    return 'the reference %s{%s} in %s leads to %s, which is %r, not %s' % (
                        c, name, f, href, q.content[spans[0][0]:spans[0][1]][:60] if spans else '', tag)
    # entries of the tables of contents and navigation
    for f, p in pages.items():
        for tag, href, a, b, at in p.links:
            to = resolve(case, f, href)
            cls = at.get('class') or ''
            if to is None:
                continue
            q = pages[to[0]]
            words = SECTION.findall(re.sub(r'Z[qx]([a-z]{3})z.*?Y[qx]\1z', '', p.content[a:b] + ' ' + (at.get('title') or ''), flags=re.S))
            if 'index' in cls:
                # A link of an index entry is labelled with the section of its place
                words = []
            if words and not inside(p, a):
                obs.hit('titled')
                if to[1] is None:
                    spans = [x for x in q.heads if SECTION.search(q.content[x[0]:x[1]])][:1 if to[0] != start else None]
                else:
                    spans = q.ids.get(to[1]) or q.ids[urllib.parse.unquote(to[1])]
                    spans = [x[3] if x[0] == x[1] and x[3] else x for x in spans]
                if not any(words[0] in SECTION.findall(q.content[x[0]:x[1]]) for x in spans):
                    return 'the link %r to %s in %s leads to %r' % (p.content[a:b] or at.get('title'), href, f,
                                                                    q.content[spans[0][0]:spans[0][1]][:60] if spans else '')
    # footnotes
    for f, p in pages.items():
        for m in re.finditer(r'fnm([a-z]{3})z', p.content):
            here = [l for l in p.links if l[4].get('class') == 'footnote' and l[2] >= m.end() and not p.content[m.end():l[2]].strip()]
            if not here:
                return 'the footnote mark %s in %s is no link' % (m.group(1), f)
            target, frag = resolve(case, f, here[0][1])
            x = pages[target].ids[frag][0]
            if 'Fnt%sz' % m.group(1) not in pages[target].content[x[0]:x[1]]:
                return 'the footnote mark %s in %s leads to %r' % (m.group(1), f, pages[target].content[x[0]:x[1]][:60])
            obs.hit('note')
    # citations
    shown, k, place = {}, 0, {}
    for i, (l, key) in enumerate(case['bib']):
        k += l is None
        shown[key] = str(k) if l is None else l.replace('\\emph{B}', 'B')
        place[key] = 'bib%d' % i
    for f, p in pages.items():
        for m in re.finditer(r'Zx([a-z]{3})z(.*?)Yx\1z', p.content, re.S):
            keys = [x for x in case['citemarks'][m.group(1)] if x in shown]
            here = [l for l in p.links if l[0] == 'a' and m.start() <= l[2] and l[3] <= m.end()]
            if len(here) != len(keys):
                return 'the citation %s in %s has %d links' % (case['citemarks'][m.group(1)], f, len(here))
            for key, (tag, href, a, b, at) in zip(keys, here):
                if p.content[a:b].split() != shown[key].split():
                    return 'the citation of %s in %s shows %r instead of %r' % (key, f, p.content[a:b], shown[key])
                target, frag = resolve(case, f, href)
                q = pages[target]
                x = q.ids.get(frag) or q.ids[urllib.parse.unquote(frag)]
                if q.content[x[0][0]:x[0][1]].split() != shown[key].split() or \
                        re.search(r'bib\d+', q.content[x[0][1]:] + 'bib0').group() != place[key]:
                    return 'the citation of %s in %s leads to %r' % (key, f, q.content[x[0][0]:][:60])
                obs.hit('citation')
    # index
    found = []
    for f, p in pages.items():
        for tag, href, a, b, at in p.links:
            if p.index and any(x <= a and b <= y for x, y in p.index) and not (href.startswith('#IDXGROUP') or 'IDXGROUP' in href):
                target, frag = resolve(case, f, href)
                q = pages[target]
                x = q.ids[frag][0]
                m = re.search(r'Idx([a-z]{3})z$', q.content[:x[0]])
                if not m:
                    return 'the index entry %s in %s leads to %r' % (href, f, q.content[max(0, x[0] - 40):x[0]])
                found.append(m.group(1))
    if sorted(found) != sorted(case['idx']):
        return 'the index leads to %s instead of %s' % (sorted(found), sorted(case['idx']))
    obs.hit('index_entries', len(found))
    # reachability
    if case['theme'][1] == 'default' and case['tocdepth'] > 0 and (case['theme'][0] == 'XHTML' or case['more'][0][2]):
        reached, todo = {start}, [start]
        while todo:
            for t in links.get(todo.pop(), ()):
                if t not in reached:
                    reached.add(t)
                    todo.append(t)
        if set(pages) - reached:
            return 'the files %s are not reachable from %s' % (sorted(set(pages) - reached), start)
        if len(pages) > 1:
            obs.hit('reachable')
    obs.hit('documents')
    obs.hit('%s_%s' % tuple(x.lower() for x in case['theme']))
    if case['base']:
        obs.hit('base_url')
    if case['nonfiles']:
        obs.hit('toc_non_files')
    if case['toc']:
        obs.hit('body_toc')
    if len(pages) > 1:
        obs.hit('files_many')
    obs.nontrivial = any(p.links for p in pages.values())
    return None


SECTION = re.compile(r'(?<![A-Za-z0-9])s\d+(?![0-9A-Za-z])')


def inside(p, pos):
    """pos belongs to a reference or citation"""
    return any(m.start() <= pos < m.end() for m in re.finditer(r'Z[qx]([a-z]{3})z.*?Y[qx]\1z', p.content, re.S))


def same(case, tag, number, text):
    text = c08.dashes(text)
    if text == number:
        return True
    return c08.part_any(case['body'], tag) and text == c08.roman(int(number)).upper()
