r"""C09: every reference resolves to the object its label names, wherever the label is.

Labels and references are scattered over generated documents of numbered objects; a model keeps the current object the way
LaTeX does (local to groups). Every reference node must hold exactly the node of its label, dangling ones no node at all.
"""
import re
from collections import Counter

from mon import c08

ID = 'C09'
RULE = 'a document counts if it has a resolved reference'
QUICK = (4500, 45)
THOROUGH = (100000, 780)
REQUIRED = ['documents', 'labels', 'refs', 'dangling', 'forward', 'backward', 'own', 'on_sec', 'on_eq', 'on_row', 'on_cap', 'on_thm', 'on_item',
            'after_group', 'several_labels', 'several_refs', 'unnumbered_sec', 'pageref', 'eqref', 'autoref', 'hyperref', 'dup', 'spaced', 'two_refs',
            'cite', 'cite_missing', 'bib_first', 'bib_last', 'bib_label', 'in_title', 'in_math', 'in_footnote', 'in_caption', 'macro_name',
            'ids']
ASSUMPTIONS = ['a label directly after \\refstepcounter, in a footnote or after a starred caption is out of domain',
               'each label is defined once', 'an object with several labels has one of them as identifier']

STYLES = ['a', 'A', 'sec:%d', 'fig_%d', 'eq %d', '\xe9%d', '%d', 'x-y.%d', 'lem/%d', 'k%d', 'K%d', "l'%d", '\\pre%d', 'a*%d', 'a+%d(b)']


class Deco:
    TWO = True                  # with commands that have two references

    def __init__(self, s, case):
        self.s, self.case = s, case
        self.labels = []          # [name, kind, tag]
        self.deco, self.post = {}, {}
        self.n = 0
        self.groups = []

    def name(self):
        self.n += 1
        t = self.s.choice(STYLES)
        if '%d' not in t and (any(l[0] == t for l in self.labels)):
            t = 'n%d'
        return t % self.n if '%d' in t else t

    def label(self, cur, note=''):
        n = self.name()
        self.labels.append([n, cur[0], cur[1], note])
        sp = self.s.weighted([(8, '%s'), (1, ' %s '), (1, '%s ')]) % n
        return '\\label{%s}' % sp

    def inside(self, kind, tag, p=3):
        while self.s.bool(1, p):
            self.deco[tag] = self.deco.get(tag, '') + self.label([kind, tag])
            p = 8

    def blocks(self, bs, cur):
        """Decorate a list of blocks of one group; returns the new list and the object that is current at its end."""
        out = []
        for b in bs:
            out.append(b)
            k = b[0]
            inner = False
            if k == 'sec':
                cur = ['sec', b[4]]
                self.inside('sec', b[4], 5)
                if self.s.bool(1, 3):
                    out.append(['raw', self.label(cur)])
            elif k == 'eq':
                if b[1] not in ('displaymath', 'short', 'equation*'):
                    self.inside('eq', b[2])
                inner = True
            elif k == 'arr':
                for tag, non, sep, arr in b[2]:
                    if b[1] == 'multline':
                        if tag == b[2][0][0]:
                            self.inside('row', tag)
                    elif not non and not b[1].endswith('*'):
                        self.inside('row', tag)
                inner = True
            elif k == 'fl':
                b[4], c = self.blocks(b[4], cur)
                for star, toc, tag in b[2]:
                    if not star:
                        self.inside('cap', tag, 4)
                        if self.s.bool(1, 3):
                            self.post[tag] = self.label(['cap', tag])
                inner = True
            elif k == 'thm':
                kind = [t[1] for t in self.case['thms'] if t[0] == b[1]][0]
                if kind != 'star':
                    self.inside('thm', b[3], 4)
                    b[5], c = self.blocks(b[5], ['thm', b[3]])
                    if c and self.s.bool(1, 4):
                        b[5].append(['raw', self.label(c)])
                else:
                    b[5], c = self.blocks(b[5], None)
                inner = True
            elif k == 'enum':
                c = cur
                b[1], c = self.blocks(b[1], c)
                for it in b[2]:
                    if not it[0]:
                        c = ['item', it[1]]
                        self.inside('item', it[1], 4)
                    it[2], c = self.blocks(it[2], c)
                inner = True
            elif k == 'ul':
                c = cur
                for it in b[2]:
                    it[2], c = self.blocks(it[2], c)
                inner = True
            elif k == 'grp':
                b[2], c = self.blocks(b[2], cur)
                inner = True
            elif k == 'fn':
                b[1], c = self.blocks(b[1], None)
                inner = True
            elif k == 'cnt' and b[1] == 'refstepcounter':
                cur = None
            if inner and cur and self.s.bool(1, 6):
                out.append(['raw', self.label(cur, 'after_group')])
        return out, cur

    # ---- references

    def ref(self, math=False):
        s = self.s
        if self.labels and s.bool(6, 7):
            n = s.choice(self.labels)[0]
        else:
            n = s.choice(['none', 'nix:1', 'a', 'A', 'k1', 'sec:1', 'fig_2'])
        cmds = ['ref', 'ref', 'ref', 'pageref', 'eqref' if self.case['ams'] else 'ref']
        if self.case['hyper'] and not math:
            cmds += ['autoref', 'hyperref']
        if self.TWO and s.bool(1, 12):
            o = s.choice(self.labels)[0] if self.labels and s.bool(5, 6) else 'none'
            self.case['refs'] += [['tworefs', n], ['tworefs', o]]
            self.case['marks'].append('two_refs')
            return '\\tworefs{%s}{%s}' % (n, o)
        c = s.choice(cmds)
        name = s.weighted([(8, '%s'), (1, ' %s ')]) % n
        t = '\\hyperref[%s]{text}' % name if c == 'hyperref' else '\\%s{%s}' % (c, name)
        if name != n:
            self.case['marks'].append('spaced')
        k = 1
        if not math:
            w = s.weighted([(8, ''), (1, 'emph'), (1, 'dup')])
            if w == 'emph':
                t = '\\emph{see %s}' % t
            elif w == 'dup':
                t = '\\dup{%s}' % t
                k = 2
                self.case['marks'].append('dup')
        self.case['refs'] += [[c, n]] * k
        return t

    def cite(self):
        s = self.s
        ks = [s.choice(self.case['bib'])[1] if self.case['bib'] and s.bool(6, 7) else 'missing' for _ in range(s.int(1, 3))]
        note = s.bool(1, 4)
        self.case['cites'].append([ks, note])
        return '\\cite%s{%s}' % ('[note]' if note else '', s.choice([',', ', ']).join(ks))

    def scatter(self, bs, where):
        s = self.s
        out = []
        for b in bs:
            k = b[0]
            if k == 'sec' and s.bool(1, 6):
                self.add(b[4], False, 'in_title')
            elif k == 'eq' and s.bool(1, 8):
                self.add(b[2], True, 'in_math')
            elif k == 'arr':
                for row in b[2]:
                    if s.bool(1, 8):
                        self.add(row[0], True, 'in_math')
            elif k == 'fl':
                for star, toc, tag in b[2]:
                    if s.bool(1, 6):
                        self.add(tag, False, 'in_caption')
                b[4] = self.scatter(b[4], where)
            elif k == 'thm':
                if s.bool(1, 5):
                    self.add(b[3], False, '')
                b[5] = self.scatter(b[5], where)
            elif k in ('enum', 'ul'):
                for it in b[2]:
                    if s.bool(1, 6):
                        self.add(it[1], False, '')
                    it[2] = self.scatter(it[2], where)
            elif k == 'grp':
                b[2] = self.scatter(b[2], where)
            elif k == 'fn':
                b[1] = self.scatter(b[1], 'in_footnote')
            if s.bool(1, 5):
                t = self.ref()
                if where:
                    self.case['marks'].append(where)
                out.append(['raw', 'see %s.\n' % t])
            if s.bool(1, 12):
                out.append(['raw', 'cf. %s.\n' % self.cite()])
            out.append(b)
        return out

    def add(self, tag, math, mark):
        if mark:
            self.case['marks'].append(mark)
        self.deco[tag] = (' %s' % self.ref(math)) + self.deco.get(tag, '') if self.s.bool() else \
            self.deco.get(tag, '') + (' %s' % self.ref(math))


def gen(s, tier, deco=Deco):
    case = c08.gen(s, tier)
    if case is None or 'body' not in case:
        return None
    case.update({'hyper': s.bool(1, 4), 'refs': [], 'cites': [], 'bib': [], 'marks': []})
    if s.bool(1, 2):
        for k in s.sample(['k1', 'Knuth:84', 'a', 'b b', 'x_y', 'missing2'], s.int(1, 4)):
            case['bib'].append([s.choice([None, None, 'Foo', '\\emph{B}99']), k])
    d = deco(s, case)
    body, cur = d.blocks(case['body'], None)
    body = d.scatter(body, '')
    for _ in range(s.int(0, 3)):
        body.insert(0, ['raw', 'see %s.\n' % d.ref()])
        body.append(['raw', 'see %s.\n' % d.ref()])
    if case['bib']:
        body.append(['raw', 'cf. %s.\n' % d.cite()])
        t = '\\begin{thebibliography}{9}\n' + ''.join('\\bibitem%s{%s} Text bib%d\n' % ('[%s]' % l if l else '', k, i)
                                                            for i, (l, k) in enumerate(case['bib'])) + \
            '\\end{thebibliography}\n'
        first = s.bool(1, 4)
        case['marks'].append('bib_first' if first else 'bib_last')
        body.insert(0 if first else len(body), ['raw', t])
    case.update({'body': body, 'labels': d.labels, 'deco': d.deco, 'post': d.post,
                 'pre': ('\\usepackage{hyperref}\n' if case['hyper'] else '') + '\\newcommand\\pre{P}\n\\newcommand\\dup[1]{#1 and #1}\n'})
    return case


REFS = ('ref', 'pageref', 'eqref', 'autoref', 'hyperref', 'tworefs')


def walk(node, objs, refs, cites, bibs):
    at = getattr(node, 'attributes', None)
    if at:
        for k, v in at.items():
            if k != 'self' and getattr(v, 'nodeType', None) is not None and not isinstance(v, str):
                walk(v, objs, refs, cites, bibs)
    for c in node.childNodes:
        if c.nodeType == 1:
            if c08.kind(c):
                objs.append(c)
            if c.nodeName in REFS:
                refs.append(c)
            if c.nodeName == 'cite':
                cites.append(c)
            if c.nodeName == 'bibitem':
                bibs.append(c)
        if c.nodeType != 3:
            walk(c, objs, refs, cites, bibs)


def text(x):
    return None if x is None else c08.dashes(getattr(x, 'textContent', x))


def run(case, obs):
    from plasTeX.TeX import TeX
    from plasTeX import Command

    class tworefs(Command):
        args = 'label:idref other:idref'
        mathMode = False
    tex = TeX()
    doc = tex.ownerDocument
    doc.context['tworefs'] = tworefs
    doc.config['document']['sec-num-depth'] = case['depth']
    tex.input(c08.source(case))
    m = c08.Model(case).run()
    numbers = {w[1]: w[2] for w in m.out}
    kinds = {w[1]: w[0] for w in m.out}
    tex.parse()
    obs.hit('documents')
    for x in case['marks']:
        obs.hit(x)
    objs, refs, cites, bibs = [], [], [], []
    walk(doc, objs, refs, cites, bibs)
    order = {}

    def visit(n):
        order[id(n)] = len(order)
        at = getattr(n, 'attributes', None)
        if at:
            for k, v in at.items():
                if k != 'self' and getattr(v, 'nodeType', None) is not None and not isinstance(v, str):
                    visit(v)
        for c in n.childNodes:
            visit(c)
    visit(doc)
    bytag = {}
    for n in objs:
        t = re.match(r'[a-z]\d+', str((n.attributes['title'] if c08.kind(n) == 'sec' else n).textContent).strip())
        if t:
            bytag[t.group(0)] = n
    owner, groups = {}, {}
    for name, kind, tag, note in case['labels']:
        node = bytag.get(tag)
        if node is None:
            return 'object %s of label %r is not in the document' % (tag, name)
        accepted = [node]
        if kind == 'row' and node is [c for c in node.parentNode.childNodes if c.nodeName == 'ArrayRow'][0]:
            # the number of the first row is the number of the environment
            accepted.append(node.parentNode)
        key = name.replace('\\pre', 'P')
        if key != name:
            obs.hit('macro_name')
        owner[key] = (accepted, tag)
        groups.setdefault(tag, []).append(key)
        obs.hit('labels')
        obs.hit('on_' + kind)
        if note:
            obs.hit(note)
        if kind == 'sec' and numbers[tag] is None:
            obs.hit('unnumbered_sec')
    want = Counter((c, n.replace('\\pre', 'P')) for c, n in case['refs'])
    # tworefs is a command of the check with two references
    refs = [(n, k) for n in refs for k in (['label', 'other'] if n.nodeName == 'tworefs' else ['label'])]
    got = Counter((n.nodeName, str(n.attributes[k]).strip()) for n, k in refs)
    if want != got:
        return 'references are %s instead of %s' % (sorted((got - want).items()), sorted((want - got).items()))
    count = Counter()
    for n, k in refs:
        name = str(n.attributes[k]).strip()
        obs.hit('refs')
        obs.hit(n.nodeName)
        count[name] += 1
        target = n.idref.get(k)
        if name not in owner:
            obs.hit('dangling')
            if target is not None and (id(target) in order or target.ref is not None or target.parentNode is not None):
                return 'dangling reference to %r resolves to %s %r' % (name, target.nodeName, text(target)[:30])
            continue
        accepted, tag = owner[name]
        obs.nontrivial = True
        if not any(target is a for a in accepted):
            return 'reference to %r resolves to %s number %s instead of %s (%s)' % (
                name, target is not None and target.nodeName, target is not None and text(target.ref), tag, kinds[tag])
        if text(target.ref) != numbers[tag] and not (kinds[tag] == 'sec' and c08.part_any(case['body'], tag)):
            return 'reference to %r prints %s instead of %s' % (name, text(target.ref), numbers[tag])
        obs.hit('forward' if order[id(n)] < order[id(target)] else 'backward')
        a = n
        while a is not None and a is not target:
            a = a.parentNode
        if a is not None:
            obs.hit('own')
    if any(v > 1 for v in count.values()):
        obs.hit('several_refs')
    # identifiers
    ids = {}
    for tag, names in groups.items():
        if len(names) > 1:
            obs.hit('several_labels')
        accepted = owner[names[0]][0]
        have = [str(a.id) for a in accepted]
        if not any(h in names for h in have):
            return 'identifier of %s is %s instead of %s' % (tag, have, names)
    for n in objs:
        i = str(n.id)
        obs.hit('ids')
        if i in ids:
            return 'objects %s and %s have the same identifier %r' % (ids[i].nodeName, n.nodeName, i)
        ids[i] = n
        if i in owner and not any(n is a for a in owner[i][0]):
            return '%s %r has the identifier %r, a label of %s' % (n.nodeName, text(n)[:20], i, owner[i][1])
    # bibliography
    if len(bibs) != len(case['bib']) or [str(b.attributes['key']) for b in bibs] != [k for l, k in case['bib']]:
        return 'bibliography items are %s instead of %s' % ([str(b.attributes['key']) for b in bibs], case['bib'])
    shown, k = {}, 0
    for (l, key), b in zip(case['bib'], bibs):
        if l is None:
            k += 1
        else:
            obs.hit('bib_label')
        shown[key] = str(k) if l is None else l.replace('\\emph{B}', 'B')
        if text(b.bibcite) != shown[key]:
            return 'label of item %r is %s instead of %s' % (key, text(b.bibcite), shown[key])
    if len(cites) != len(case['cites']):
        return '%d citations instead of %d' % (len(cites), len(case['cites']))
    wants = [(','.join(ks), note) for ks, note in case['cites']]
    for c in cites:
        obs.hit('cite')
        ks = [str(x) for x in c.attributes['bibkeys']]
        w = (','.join(ks), c.attributes['text'] is not None)
        if w not in wants:
            return 'citation %s was not written' % (w,)
        wants.remove(w)
        exp = [bibs[[x[1] for x in case['bib']].index(x)] for x in ks if x in shown]
        if len(exp) < len(ks):
            obs.hit('cite_missing')
        items = c.bibitems
        if len(items) != len(exp) or not all(a is b for a, b in zip(items, exp)):
            return 'citation of %s resolves to %s' % (ks, [str(i.attributes['key']) for i in items])
        if exp:
            t = '[' + ', '.join(shown[x] for x in ks if x in shown) + (', note' if w[1] else '') + ']'
            if text(c.citation()) != t:
                return 'citation of %s is %s instead of %s' % (ks, text(c.citation()), t)
            obs.nontrivial = True
    return None


def show(case):
    return c08.show(case)
