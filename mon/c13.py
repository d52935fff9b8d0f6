r"""C13: rendering splits the document into files without losing or repeating
content.

Documents are generated as a tree of sectioning units with unique marker words
in every piece of body text, every footnote and every title.  Which markers
belong into one file, in which order, follows from the levels of the units and
the split level alone; the output files are compared with that.
"""
import json
import os
import re
import subprocess
import sys
from html.parser import HTMLParser

from . import core, render

ID = 'C13'
RULE = ('the marker words of the files are those of the file-producing units, each exactly once, in document order, '
        'footnotes at the end; file names are distinct, free of the forbidden characters and reproducible')
QUICK = (700, 40)
THOROUGH = (16000, 800)
REQUIRED = ['marker', 'footnote', 'heading', 'repeated', 'files-1', 'files-many', 'single-file-template', 'rerun', 'fresh-process',
            'bad-char-in-title', 'duplicate-title', 'bibliography', 'index', 'starred', 'level-jump', 'labelled']
ASSUMPTIONS = [
    'a unit is recognised by the marker word in its heading element; titles repeated in navigation and tables of contents are not content',
    'templates have an alternative that cannot run out ($num)',
    'footnotes are not used in titles',
]

LEVELS = {'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}
MARK = re.compile(r'[WHF]q[a-z]+z')


# ---------------------------------------------------------------- documents
class Maker:
    """Source with markers"""

    def __init__(self, s):
        self.s = s
        self.n = 0
        # parts with equal content
        self.repeat = s.bool(1, 5)
        self.body = []          # markers of the current piece, in order
        self.foot = []

    def name(self, kind):
        n, w = self.n, ''
        if self.repeat and self.s.bool(1, 3):
            return kind + 'qyy' + self.s.choice('aab') + 'z'
        self.n += 1
        for i in range(3):
            w = chr(97 + n % 25) + w
            n //= 25
        return kind + 'q' + w + 'z'

    def word(self, notes=True):
        m = self.name('W')
        self.body.append(m)
        src = m
        if notes and self.s.bool(1, 8):
            f = self.name('F')
            self.foot.append(f)
            how = self.s.int(0, 5)
            if how == 0:
                src += '\\footnotemark{} \\footnotetext{%s}' % f
            elif how == 1:
                src += '\\footnote{\\emph{%s} x}' % f
            elif how == 2:
                g = self.name('F')
                self.foot.append(g)
                src += '\\footnote{%s}\\footnote{u\n\n%s}' % (f, g)
            else:
                src += '\\footnote{%s}' % f
        elif self.s.bool(1, 8):
            src = self.s.choice(['\\textbf{%s}', '{\\it %s}', '\\emph{a %s}', '$x$ %s', '\\mbox{%s}', '{%s}', '\\texttt{%s}']) % src
        return src

    def block(self, depth=0):
        s = self.s
        w = self.word
        k = s.int(0, 17)
        if depth > 2 or k < 5:
            return ' '.join(w() for i in range(s.int(1, 3)))
        if k == 5:
            return '\\begin{itemize}%s\\end{itemize}' % ''.join(
                '\\item %s ' % self.block(depth + 1) for i in range(s.int(1, 3)))
        if k == 6:
            return '\\begin{enumerate}%s\\end{enumerate}' % ''.join(
                '\\item %s\n\n%s ' % (w(), self.block(depth + 1)) for i in range(s.int(1, 2)))
        if k == 7:
            return '\\begin{description}%s\\end{description}' % ''.join(
                '\\item[%s] %s ' % (w(), w()) for i in range(s.int(1, 2)))
        if k == 8:
            rows = s.int(1, 3)
            return '\\begin{tabular}{l|r}%s\\end{tabular}' % '\\\\ '.join(
                '%s & %s' % (w(), w()) for i in range(rows))
        if k == 9:
            return '\\begin{%s}%s\\caption{%s}\\end{%s}' % ((lambda e: (e, w(), w(), e))(s.choice(['figure', 'table'])))
        if k == 10:
            e = s.choice(['quote', 'quotation', 'center', 'flushleft', 'flushright'])
            return '\\begin{%s}%s\\end{%s}' % (e, self.block(depth + 1), e)
        if k == 11:
            return '\\begin{verbatim}\n%s\n\\end{verbatim}\n' % self.plain()
        if k == 12:
            return '\\begin{thm}%s\\end{thm}' % w()
        if k == 13:
            return '\\[ x=1 \\] %s \\begin{equation}y\\end{equation} %s' % (w(), w())
        if k == 14:
            return '\\parbox{3cm}{%s}\\begin{minipage}{3cm}%s\n\n%s\\end{minipage}' % (w(), w(), w())
        if k == 15:
            return '\\verb|%s| %s' % (self.plain(), w())
        if k == 16:
            return 'x\\index{%s} %s' % (s.choice(['a', 'b', 'a!c', 'd|see{a}']), w())
        return '\\begin{tabular}{ll}\\multicolumn{2}{c}{%s}\\\\ %s & \\\\ & %s\\\\\\hline\\end{tabular}' % (w(), w(), w())

    def plain(self):
        m = self.name('W')
        self.body.append(m)
        return m

    def text(self):
        """Some paragraphs and their markers"""
        self.body, self.foot = [], []
        src = '\n\n'.join(self.block() for i in range(self.s.weighted([(1, 0), (4, 1), (3, 2), (1, 3)])))
        return [src, self.body, self.foot]


TITLES = ['', 'Alpha', 'Alpha', 'Intro to X', 'a/b: c?', '\\&amp', 'na\xefve \u2603', '$x_1$ rule', '{\\it Em} it', 'A {"}b{"}', 'What, why!',
          "O'Neil's", 'one two three four five six', 'x.y', 'index', 'sect0002', 'Beta', '100\\% \\#1', '(paren) [brack]', 'semi; <tag>',
          'tab\\_le', 'A--B', 'back\\textbackslash slash', '$\\alpha$', '\\"Uber', 'C\\#', '~', 'a\\\\b']
LABELS = ['sec:a', 'intro', 'a.b', 'x_y', 'A', 'index', 'sect0001', 'sec-a', 'a b', 'eq/1', 'b', 'c', 'd:1', 'd-1']
TEMPLATES = ['index [$id, sect$num(4)]', 'index [$id, sect$num(4)]', '[$id, sect$num]', 'index [$title(2), $num]', 'a b c [x$num(3)]',
             'main.html [$jobname-$num(2)]', '[$name-$ref, $name$num]', 'index toc x$num', 'index [$id, $title(3), sect$num(2)]',
             '[$title, sect$num]', 'i.htm [$title(1)-$num(2).htm, y$num]', 'index [$ref, $id, z$num]', '$jobname [$jobname-$name$num]',
             '[$id,sect$num]', '[$title(2),p$num(2)]', 'd-[$id,sect$num]', '[$num]', 'first [p$num(1)]', 'index [$title-$num]', '$name [$title, $num(8)]']
SINGLE = ['index', 'index.html', '$jobname', 'doc.htm', 'all$num', '$name', '${jobname}x']
BAD = [None, None, None, [':/ ', '_'], [': #$%%^&*!~`"\'=?/{}[]()|<>;\\,.', ''], ['/aeiou', '+'], [' /', ''], ['/', '-']]


def gen(s, tier):
    m = Maker(s)
    cls = s.weighted([(5, 'article'), (3, 'book'), (2, 'report'), (1, 'memoir'), (1, 'amsart'), (1, 'amsbook')])
    chap = cls in ('book', 'report', 'memoir', 'amsbook')
    names = [n for n in LEVELS if chap or n != 'chapter']
    labels = s.shuffle(list(LABELS))
    units = []
    level = 0
    for i in range(s.int(0, 9)):
        if units and s.bool(2, 3):
            # near the last unit
            i0 = names.index(units[-1]['name'])
            n = names[max(0, min(len(names) - 1, i0 + s.choice([-1, 0, 0, 1, 1])))]
        else:
            n = s.weighted([(1, names[0]), (4, names[1]), (3, names[2]), (1, s.choice(names))])
        u = {'name': n, 'star': s.bool(1, 7), 'title': s.choice(TITLES), 'mark': m.name('H'), 'where': s.int(0, 2),
             'short': s.bool(1, 10), 'label': labels.pop() if labels and s.bool(1, 3) else None}
        u['text'] = m.text()
        units.append(u)
    lead = m.text()
    case = {'class': cls, 'units': units, 'lead': lead, 'toc': s.bool(1, 3), 'abstract': None, 'bib': None,
            'index': s.bool(1, 6), 'appendix': None, 'title': s.bool(1, 3)}
    if s.bool(1, 8) and cls in ('article', 'report'):
        case['abstract'] = m.text()
    if s.bool(1, 6):
        m.body, m.foot = [], []
        case['bib'] = [[m.word(False) for i in range(s.int(1, 3))], m.body, []]
    if units and s.bool(1, 8):
        case['appendix'] = s.int(0, len(units) - 1)
    if s.bool(1, 8):
        case['template'] = s.choice(SINGLE)
    else:
        case['template'] = s.choice(TEMPLATES)
    case['bad'] = s.choice(BAD)
    case['split'] = s.weighted([(3, 2), (3, 1), (2, 0), (1, -1), (1, -2), (2, 3), (1, 4), (2, 5), (1, 6), (1, -10), (1, s.int(-10, 6))])
    case['renderer'] = list(s.weighted([(6, ('HTML5', 'minimal')), (2, ('HTML5', 'default')), (3, ('XHTML', 'default')),
                                        (1, ('HTML5', 'fragment')), (1, ('XHTML', 'plain')), (1, ('XHTML', 'minimal')),
                                        (1, ('XHTML', 'python'))]))
    case['job'] = s.weighted([(4, 'job'), (1, 'my job'), (1, 'a.b'), (1, 'x-y_z'), (1, 'J&K #1')])
    case['rerun'] = s.weighted([(6, 0), (3, 1), (1, 2)])
    return case


def corpus(tier):
    """One document at every split level, with every template"""
    out = []
    for cls in ('article', 'book'):
        for k in range(-10, 7):
            m = Maker(core.Src(__import__('random').Random(5)))
            units = []
            for n in ['part', 'chapter', 'section', 'subsection', 'section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph',
                      'paragraph', 'subsubsection', 'subparagraph', 'section', 'chapter', 'section', 'part', 'section']:
                if n == 'chapter' and cls == 'article':
                    continue
                units.append({'name': n, 'star': False, 'title': 'Title %s' % n, 'mark': m.name('H'), 'where': 0, 'short': False, 'label': None,
                              'text': m.text()})
            out.append({'class': cls, 'units': units, 'lead': m.text(), 'toc': True, 'abstract': None, 'bib': None, 'index': False,
                        'appendix': None, 'title': True, 'template': TEMPLATES[k % len(TEMPLATES)], 'bad': None, 'split': k,
                        'renderer': [['HTML5', 'minimal'], ['XHTML', 'default'], ['HTML5', 'default']][k % 3], 'rerun': 0})
    return out


def source(case):
    out = ['\\documentclass{%s}\n\\newtheorem{thm}{Thm}\n\\usepackage{makeidx}\\makeindex\n' % case['class']]
    if case['title']:
        out.append('\\title{Doc title}\\author{Me}\n')
    out.append('\\begin{document}\n')
    if case['title']:
        out.append('\\maketitle\n')
    if case['abstract']:
        out.append('\\begin{abstract}%s\\end{abstract}\n' % case['abstract'][0])
    out.append(case['lead'][0] + '\n\n')
    if case['toc']:
        out.append('\\tableofcontents\n')
    for i, u in enumerate(case['units']):
        if case['appendix'] == i:
            out.append('\\appendix\n')
        title = [u['title'] + ' ' + u['mark'], u['mark'] + ' ' + u['title'], u['title'] + u['mark']][u['where']].strip()
        if u['title'] == '' and u['where'] == 2:
            title = u['mark']
        out.append('\\%s%s%s{%s}%s\n%s\n\n' % (
            u['name'], '*' if u['star'] else '', '[Short]' if u['short'] and not u['star'] else '', title,
            '\\label{%s}' % u['label'] if u['label'] else '', u['text'][0]))
    if case['bib']:
        out.append('\\begin{thebibliography}{9}%s\\end{thebibliography}\n' % ''.join(
            '\\bibitem{k%d} %s\n' % (i, w) for i, w in enumerate(case['bib'][0])))
    if case['index']:
        out.append('\\printindex\n')
    out.append('\\end{document}\n')
    return ''.join(out)


def show(case):
    return '%s/%s jobname %r template %r split %d bad-chars %r\n%s' % (
        case['renderer'][0], case['renderer'][1], case.get('job', 'job'), case['template'], case['split'], case['bad'], source(case))


def expected(case):
    """[markers of a file, footnotes of a file] in the order of the units that have a file"""
    chap = case['class'] in ('book', 'report', 'memoir', 'amsbook')
    split = case['split']
    if ' ' not in case['template'] and '[' not in case['template']:
        split = -10
    files = [[[], []]]
    stack = [(-100, 0)]         # (level, number of the file)

    def add(i, text):
        files[i][0].extend(text[1])
        files[i][1].extend(text[2])
    if case['abstract']:
        add(0, case['abstract'])
    add(0, case['lead'])
    extra = []
    if case['bib']:
        # part of the last unit
        extra.append({'level': 100, 'text': case['bib'], 'mark': None})
    if case['index']:
        extra.append({'level': 0 if chap else 1, 'text': ['', [], []], 'mark': None})
    for u in case['units'] + extra:
        level = u.get('level', LEVELS.get(u.get('name')))
        while stack[-1][0] >= level:
            stack.pop()
        if level <= split:
            files.append([[], []])
            stack.append((level, len(files) - 1))
        else:
            stack.append((level, stack[-1][1]))
        i = stack[-1][1]
        if u['mark']:
            files[i][0].append(u['mark'])
        add(i, u['text'])
    return files


# ---------------------------------------------------------------- observation
class Markers(HTMLParser):
    """Markers of a file: words outside navigation, titles only in headings"""
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.out = []
        self.heading = 0
        self.skip = 0

    def handle_starttag(self, tag, attrs):
        if re.match('h[1-6]$', tag):
            self.heading += 1
        if tag in ('header', 'nav', 'head', 'title'):
            self.skip += 1

    def handle_endtag(self, tag):
        if re.match('h[1-6]$', tag):
            self.heading -= 1
        if tag in ('header', 'nav', 'head', 'title'):
            self.skip -= 1

    def handle_data(self, data):
        for w in MARK.findall(data):
            if w[0] != 'H':
                self.out.append(w)
            elif self.heading and not self.skip:
                self.out.append(w)


def markers(text):
    p = Markers()
    p.feed(text)
    p.close()
    return p.out


def options(case):
    opts = [('files', 'split-level', case['split']), ('files', 'filename', case['template'])]
    if case['bad'] is not None:
        opts += [('files', 'bad-chars', case['bad'][0]), ('files', 'bad-chars-sub', case['bad'][1])]
    return opts


def pages(case):
    files = render.render(source(case), case['renderer'][0], case['renderer'][1], options(case), jobname=case.get('job', 'job'))[1]
    own = assets(*case['renderer']) | {case.get('job', 'job') + '.paux'}
    return {k: v for k, v in files.items() if k not in own}, files


_assets = {}


def assets(renderer, theme):
    """The files that every rendering writes (styles, scripts, help tables)"""
    if (renderer, theme) not in _assets:
        files = render.render('\\documentclass{article}\\begin{document}x\\end{document}', renderer, theme, [('files', 'filename', 'thedoc')])[1]
        _assets[renderer, theme] = {f for f in files if not f.startswith('thedoc')}
    return _assets[renderer, theme]


FRESH = '''
import sys, json, logging
sys.path.insert(0, %r)
logging.disable(logging.CRITICAL)
import os
out = os.dup(1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
from mon import core
core.quiet_plastex()
from mon import c13
case = json.load(sys.stdin)
files = c13.pages(case)[0]
os.write(out, json.dumps({k: c13.markers(v) for k, v in files.items()}).encode())
'''


def fresh(case):
    """The pages of the document in another process, with another hash seed"""
    env = dict(os.environ, PYTHONHASHSEED='77')
    p = subprocess.run([sys.executable, '-c', FRESH % os.path.dirname(os.path.dirname(os.path.abspath(__file__)))],
                       input=json.dumps(case).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=100)
    if p.returncode:
        raise RuntimeError('the document cannot be rendered in a fresh process: ' + p.stderr.decode(errors='replace')[-300:])
    return json.loads(p.stdout)


def unique(ms):
    """Markers that are used once"""
    return [m for m in ms if m[1:4] != 'qyy']


def run(case, obs):
    try:
        got, everything = pages(case)
    except Exception as e:
        return 'rendering raises %r' % e
    want = expected(case)
    found = {k: markers(v) for k, v in got.items()}
    # Which file belongs to which unit?
    place = {}
    for f in sorted(found):
        for w in found[f]:
            place.setdefault(w, []).append(f)
    for body, foot in want:
        for w in unique(body + foot):
            n = place.get(w, [])
            if len(n) != 1:
                return '%s %s in the output (%s)' % ({'W': 'the text', 'H': 'the heading', 'F': 'the footnote'}[w[0]] + ' ' + w,
                                                     'is missing' if not n else 'appears %d times' % len(n), n)
    used = {}
    for i, (body, foot) in enumerate(want):
        names = {place[w][0] for w in unique(body + foot)}
        if len(names) > 1:
            return 'the markers %s of one file are in the files %s' % (body + foot, sorted(names))
        for f in names:
            if f in used:
                return 'the file %s has the contents of two units: %s and %s' % (f, want[used[f]], want[i])
            used[f] = i
            if found[f] != body + foot:
                return 'the order in %s is %s, expected %s' % (f, found[f], body + foot)
    all_want = sorted(w for body, foot in want for w in body + foot)
    all_got = sorted(w for f in found for w in found[f])
    if all_want != all_got:
        return 'the markers are %s, expected %s' % (all_got, all_want)
    obs.hit('repeated', len([w for w in all_want if w[1:4] == 'qyy']))
    if len(got) != len(want):
        return '%d files %s, expected %d' % (len(got), sorted(got), len(want))
    bad = (case['bad'] or [None])[0]
    if bad is None:
        bad = ': #$%^&*!~`"\'=?/{}[]()|<>;\\,.'
    for f in got:
        stem = re.sub(r'\.html?$', '', f)
        if template_literals(case['template'], bad):
            continue
        for c in stem:
            if c in bad:
                return 'the file name %r has the forbidden character %r' % (f, c)
    if case['rerun']:
        try:
            if case['rerun'] == 2:
                again = fresh(case)
                obs.hit('fresh-process')
            else:
                again = {k: markers(v) for k, v in pages(case)[0].items()}
        except Exception as e:
            return 'rendering again raises %r' % e
        if again != found:
            return 'the second run writes %s, the first one %s' % (sorted(again), sorted(found))
        obs.hit('rerun')
    for body, foot in want:
        obs.hit('marker', len(body))
        obs.hit('footnote', len(foot))
        obs.hit('heading', sum(w[0] == 'H' for w in body))
    obs.hit('files-1' if len(got) == 1 else 'files-many')
    obs.seen('names', tuple(sorted(got)))
    if ' ' not in case['template'] and '[' not in case['template']:
        obs.hit('single-file-template')
    titles = [u['title'] for u in case['units']]
    if len(set(titles)) < len(titles):
        obs.hit('duplicate-title')
    if any(c in t for t in titles for c in ':/?'):
        obs.hit('bad-char-in-title')
    for k, n in (('bib', 'bibliography'), ('index', 'index')):
        if case[k]:
            obs.hit(n)
    for a, b in zip(case['units'], case['units'][1:]):
        if LEVELS[b['name']] - LEVELS[a['name']] > 1:
            obs.hit('level-jump')
    for u in case['units']:
        if u['star']:
            obs.hit('starred')
        if u['label']:
            obs.hit('labelled')
        obs.seen('level', (u['name'], u['star'], case['split']))
    obs.nontrivial = len(case['units']) > 0
    return None


def template_literals(template, bad):
    """Does the template itself have forbidden characters?"""
    t = re.sub(r'\$\{?\w+\}?(\(\d+\))?|\.html?\b|[\[\] ,]', '', template)
    return any(c in bad for c in t)
