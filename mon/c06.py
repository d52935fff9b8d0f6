r"""C06: the document tree stays a consistent tree under any sequence of DOM edits.

Sequences of the documented editing operations are applied to real nodes and to a plain list-of-lists model; after
every operation the child lists, parent and owner links, return values and all derived views of every node are
compared with the model.
"""
import itertools

ID = 'C06'
RULE = 'a history counts if at least three operations changed a tree'
QUICK = (6000, 45)
THOROUGH = (400000, 760)
OPS = ['append', 'appendChild', 'insert', 'insertBefore', 'insertAfter', 'replaceChild', 'removeChild', 'remove', 'pop', 'popi', 'setitem',
       'extend', 'iadd', 'normalize', 'cloneNode', 'clone0']
REQUIRED = ['raw_node', 'histories', 'ops', 'checks', 'frag_inserted', 'frag_into_frag', 'frag_empty', 'alias_edit', 'attr_frag_edit', 'neg_index',
            'past_end', 'bad_ref', 'bad_index', 'reinserted', 'raw_str', 'merged', 'cmp_pairs', 'lookup_hits', 'deep_clone', 'document_edit',
            'tex_doc', 'attr_clone', 'cousins', 'blind'] + ['op_' + o for o in OPS]
ASSUMPTIONS = ['the nodes inserted are detached, not ancestors of the target, and from the same document',
               'a fragment is not used any more after its content was inserted elsewhere',
               'the attributes of an element are set before its children are looked at',
               'document positions of attribute values relative to children are not compared']
NAMES = {'dom': ['a', 'b', 'c'], 'tex': ['emph', 'textbf', 'quote']}


class M(object):
    """A node of the model."""
    __slots__ = ('kind', 'name', 'text', 'children', 'parent', 'attrs', 'obj', 'alias', 'holder', 'dead')

    def __init__(self, kind, name=None, text=None):
        self.kind, self.name, self.text = kind, name, text
        self.children, self.parent, self.attrs, self.obj = [], None, {}, None
        self.alias = self.holder = None
        self.dead = False


def value_nodes(v):
    if isinstance(v, M):
        return [v]
    if isinstance(v, list):
        return [x for x in v if isinstance(x, M)]
    if isinstance(v, dict):
        return [x for x in v.values() if isinstance(x, M)]
    return []


class World(object):
    def __init__(self, kind, obs):
        self.obs = obs
        self.kind = kind
        if kind == 'tex':
            from plasTeX import TeXDocument
            self.doc = TeXDocument()
            obs.hit('tex_doc')
        else:
            from plasTeX.DOM import Document
            self.doc = Document()
        root = M('d')
        root.obj = self.doc
        self.root = root
        self.nodes = [root]
        self.raw = []

    # -- construction
    def make(self, spec):
        doc = self.doc
        if spec[0] == 't':
            m = M('t', text=spec[1])
            m.obj = doc.createTextNode(spec[1])
        elif spec[0] == 'f':
            m = M('f')
            m.obj = doc.createDocumentFragment()
            self.fill(m, spec[1])
        else:
            m = M('e', name=spec[1])
            m.obj = doc.createElement(spec[1])
            for k, v in sorted((spec[3] if len(spec) > 3 else {}).items()):
                mv, ov = self.value(v)
                for x in value_nodes(mv):
                    x.holder = m
                m.attrs[k] = mv
                m.obj.attributes[k] = ov
                if k == 'self' and mv is not None:
                    mv.alias = m
                    m.children = mv.children
                    for c in m.children:
                        c.parent = m
            self.fill(m, spec[2])
        self.nodes.append(m)
        return m

    def fill(self, m, specs):
        for s in specs:
            c = self.make(s)
            m.children.append(c)
            c.parent = m.alias or m
            m.obj.append(c.obj)

    def value(self, v):
        if isinstance(v, dict):
            p = dict((k, self.value(x)) for k, x in v.items())
            return dict((k, x[0]) for k, x in p.items()), dict((k, x[1]) for k, x in p.items())
        if isinstance(v, list) and v and v[0] == 'L':
            p = [self.value(x) for x in v[1:]]
            return [x[0] for x in p], [x[1] for x in p]
        if isinstance(v, list):
            m = self.make(v)
            return m, m.obj
        return v, v

    # -- choice of operands
    def containers(self):
        return [n for n in self.nodes if n.kind != 't' and not n.dead]

    def detached(self, tgt):
        up = set()
        n = tgt
        while n is not None:
            up.add(n)
            n = n.parent or n.holder
        return [n for n in self.nodes if n.kind != 'd' and n.parent is None and n.holder is None and not n.dead and n not in up]

    def arg(self, tgt, a):
        """(model nodes to insert, real argument)"""
        if a[0] == 'old':
            d = self.detached(tgt)
            if d:
                m = d[a[1] % len(d)]
                if m.kind != 'f':
                    self.obs.hit('reinserted')
            else:
                m = self.make(['t', 'z'])
        elif a[0] == 's':
            m = M('t', text=a[1])
            self.nodes.append(m)
            self.obs.hit('raw_str')
            return [m], a[1]
        elif a[0] == 'raw':
            # A node that was made by its class belongs to the document it is put into
            m = self.make(['e', a[1], []])
            m.obj.ownerDocument = None
            self.raw.append(m)
            self.obs.hit('raw_node')
        else:
            m = self.make(a)
        if m.kind == 'f':
            items = list(m.children)
            self.obs.hit('frag_inserted' if items else 'frag_empty')
            if tgt.kind == 'f':
                self.obs.hit('frag_into_frag')
            m.dead = True
            m.children = []
            return items, m.obj
        return [m], m.obj

    def insert(self, tgt, i, items):
        tgt.children[i:i] = items
        for x in items:
            x.parent = tgt.alias or tgt

    def drop(self, tgt, i):
        m = tgt.children.pop(i)
        m.parent = None
        return m

    def settle(self):
        for m in self.raw:
            if m.parent is None:
                m.dead = True
        self.raw = []

    # -- one operation
    def apply(self, op):
        """None or a message."""
        name, t, a, p = op
        obs = self.obs
        obs.hit('op_' + name)
        obs.hit('ops')
        cs = self.containers()
        tgt = cs[t % len(cs)]
        n = len(tgt.children)
        real = tgt.obj
        if tgt.alias or (tgt.kind == 'e' and 'self' in tgt.attrs):
            obs.hit('alias_edit')
        elif tgt.holder:
            obs.hit('attr_frag_edit')
        if tgt.kind == 'd':
            obs.hit('document_edit')
        if name in ('append', 'appendChild'):
            items, o = self.arg(tgt, a)
            r = getattr(real, name)(o)
            self.insert(tgt, n, items)
            return self.returned(r, o)
        if name == 'insert':
            i = p - 4
            if i < 0:
                obs.hit('neg_index')
            if i > n:
                obs.hit('past_end')
            items, o = self.arg(tgt, a)
            r = real.insert(i, o)
            self.insert(tgt, slice(i, i).indices(n)[0], items)
            return self.returned(r, o)
        if name in ('extend', 'iadd'):
            parts = a if a and isinstance(a[0], list) else [a]
            if len(parts) == 1 and parts[0][0] == 'f' and p % 2:
                items, arg = self.arg(tgt, parts[0])
            else:
                items, arg = [], []
                for x in parts:
                    it, o = self.arg(tgt, x)
                    for y in it:
                        y.parent = tgt
                    items += it
                    arg.append(o)
            if name == 'extend':
                r = real.extend(arg)
            else:
                real += arg
                r = real
            self.insert(tgt, n, items)
            return self.returned(r, real)
        if name in ('insertBefore', 'insertAfter', 'replaceChild'):
            ref = None
            if n and p < 12:
                k = p % n
                ref = tgt.children[k]
                refobj = ref.obj
            else:
                obs.hit('bad_ref')
                m = self.make(['t', 'q'])
                refobj = m.obj
                if a[0] == 'f':
                    a = ['t', 'w']
            if ref is None and a[0] == 'old':
                d = [x for x in self.detached(tgt) if x.kind != 'f']
                a = ['t', 'w'] if not d else a
                if d:
                    return self.fails(lambda: getattr(real, name)(d[a[1] % len(d)].obj, refobj))
            items, o = self.arg(tgt, a)
            if ref is None:
                msg = self.fails(lambda: getattr(real, name)(o, refobj))
                for x in items:
                    if x.obj is None:
                        self.nodes.remove(x)
                return msg
            r = getattr(real, name)(o, refobj)
            if name == 'insertBefore':
                self.insert(tgt, k, items)
            elif name == 'insertAfter':
                self.insert(tgt, k + 1, items)
            else:
                self.drop(tgt, k)
                self.insert(tgt, k, items)
                return self.returned(r, refobj)
            return self.returned(r, o)
        if name in ('removeChild', 'remove'):
            if not n or p >= 14:
                obs.hit('bad_ref')
                m = self.make(['t', 'q'])
                return self.fails(lambda: getattr(real, name)(m.obj))
            m = self.drop(tgt, p % n)
            return self.returned(getattr(real, name)(m.obj), m.obj)
        if name in ('pop', 'popi'):
            i = -1 if name == 'pop' else p - 6
            if not -n <= i < n:
                obs.hit('bad_index')
                return self.fails(lambda: real.pop(i))
            m = self.drop(tgt, i)
            return self.returned(real.pop() if name == 'pop' else real.pop(i), m.obj)
        if name == 'setitem':
            i = p % (2 * n) - n if n and p < 14 else p
            if not -n <= i < n:
                obs.hit('bad_index')

                def bad():
                    real[i] = self.make(['t', 'q']).obj
                return self.fails(bad)
            if i < 0:
                obs.hit('neg_index')
            items, o = self.arg(tgt, a)
            real[i] = o
            k = i % n
            self.drop(tgt, k)
            self.insert(tgt, k, items)
            return None
        if name == 'normalize':
            before = str(real.textContent)
            real.normalize()
            self.merge(tgt)
            msg = self.adopt(tgt)
            if msg:
                return 'normalize: ' + msg
            if str(real.textContent) != before:
                return 'normalize changed the text content from %r to %r' % (before, str(real.textContent))
            return None
        if name == 'cloneNode':
            return self.clone(tgt if a[0] != 'old' else self.anynode(a[1]))
        if name == 'clone0':
            if tgt.kind == 'd':
                return None
            c = real.cloneNode()
            for x in c:
                if any(x is y.obj for y in self.nodes):
                    return 'a shallow clone lists %s of the original' % desc(x)
                if x.parentNode is not c:
                    return 'a child of the shallow clone has the parent %s' % desc(x.parentNode)
            if c.nodeName != real.nodeName or c is real or c.ownerDocument is not self.doc:
                return 'shallow clone of %s is %s' % (desc(real), desc(c))
            return None
        raise AssertionError(name)

    def anynode(self, i):
        ns = [n for n in self.nodes if not n.dead]
        return ns[i % len(ns)]

    def returned(self, r, o):
        if r is o or (isinstance(o, str) and r == o):
            return None
        return 'returned %s instead of %s' % (desc(r), desc(o))

    def fails(self, f):
        try:
            r = f()
        except Exception:
            return None
        return 'no error; returned %s' % desc(r)

    # -- normalization
    def merge(self, m):
        out = []
        for c in m.children:
            if c.kind == 't' and out and out[-1].kind == 't':
                new = M('t', text=out[-1].text + c.text)
                self.obs.hit('merged')
                out[-1].dead = c.dead = True
                out[-1].parent = c.parent = None
                out[-1] = new
                new.parent = m.alias or m
                self.nodes.append(new)
            else:
                out.append(c)
        m.children[:] = out
        for v in m.attrs.values():
            # nodes in lists and dictionaries aren't normalized
            if isinstance(v, M) and v.kind != 't':
                self.merge(v)
        for c in out:
            if c.kind != 't':
                self.merge(c)

    def adopt(self, m):
        """Take over the new text nodes below m."""
        real = list(m.obj.childNodes)
        mod = [c for c in m.children]
        if [x for x in real if x.nodeType != 3 or x] != real or any(c.kind == 't' and not c.text for c in mod):
            # empty text may stay or go
            keep = iter(real)
            real = [x for x in real if x.nodeType != 3 or x]
            for c in mod:
                if c.kind == 't' and not c.text:
                    c.dead, c.parent = True, None
            mod = [c for c in mod if c.kind != 't' or c.text]
            m.children[:] = mod
            for i in range(len(m.obj.childNodes) - 1, -1, -1):
                x = m.obj.childNodes[i]
                if x.nodeType == 3 and not x:
                    m.obj.pop(i)
        if len(real) != len(mod):
            return 'children are %s instead of %s' % (descs(real), mdescs(mod))
        for x, c in zip(real, mod):
            if c.kind == 't':
                if x.nodeType != 3 or str(x) != c.text:
                    return 'children are %s instead of %s' % (descs(real), mdescs(mod))
                c.obj = x
            elif c.obj is not x:
                return 'children are %s instead of %s' % (descs(real), mdescs(mod))
        for c in mod:
            if c.kind != 't':
                msg = self.adopt(c)
                if msg:
                    return msg
        for v in m.attrs.values():
            if isinstance(v, M) and v.kind != 't':
                msg = self.adopt(v)
                if msg:
                    return msg
        return None

    # -- clones
    def clone(self, m):
        if m.kind == 'd':
            return None
        self.obs.hit('deep_clone')
        c = m.obj.cloneNode(True)
        if not (c == m.obj) or not (m.obj == c):
            return 'deep clone of %s is not equal' % mdesc(m)
        if c.parentNode is not None:
            return 'the clone has a parent'
        new = self.copy(m, c)
        if isinstance(new, str):
            return 'deep clone of %s: %s' % (mdesc(m), new)
        return None

    def copy(self, m, real):
        """Model of the clone `real' of m, or a message."""
        if any(real is x.obj for x in self.nodes):
            return 'shares the node %s' % desc(real)
        c = M(m.kind, m.name, m.text)
        c.obj = real
        if m.kind == 't':
            if real.nodeType != 3 or str(real) != m.text:
                return '%s instead of %r' % (desc(real), m.text)
            self.nodes.append(c)
            return c
        if type(real) is not type(m.obj) or (m.kind == 'e' and real.nodeName != m.name):
            return '%s instead of %s' % (desc(real), desc(m.obj))
        if m.kind == 'e':
            if sorted(real.attributes) != sorted(m.attrs):
                return 'attributes %s instead of %s' % (sorted(real.attributes), sorted(m.attrs))
            for k, v in m.attrs.items():
                if value_nodes(v):
                    self.obs.hit('attr_clone')
                w = self.copy_value(v, real.attributes[k])
                if isinstance(w, str) and not isinstance(v, str):
                    return w
                c.attrs[k] = w
                for x in value_nodes(w):
                    x.holder = c
                if k == 'self' and isinstance(w, M):
                    w.alias = c
                    c.children = w.children
                    for x in c.children:
                        x.parent = c
        if not (m.kind == 'e' and isinstance(m.attrs.get('self'), M)):
            r = list(real.childNodes)
            if len(r) != len(m.children):
                return 'children %s instead of %s' % (descs(r), mdescs(m.children))
            for x, y in zip(m.children, r):
                z = self.copy(x, y)
                if isinstance(z, str):
                    return z
                z.parent = c
                c.children.append(z)
        self.nodes.append(c)
        return c

    def copy_value(self, v, r):
        if isinstance(v, M):
            return self.copy(v, r)
        if isinstance(v, list):
            if not isinstance(r, list) or len(r) != len(v):
                return 'attribute list differs'
            out = [self.copy_value(x, y) for x, y in zip(v, r)]
            bad = [x for x, y in zip(out, v) if isinstance(x, str) and not isinstance(y, str)]
            return bad[0] if bad else out
        if isinstance(v, dict):
            if not isinstance(r, dict) or sorted(r) != sorted(v):
                return 'attribute dictionary differs'
            out = dict((k, self.copy_value(v[k], r[k])) for k in v)
            bad = [out[k] for k in v if isinstance(out[k], str) and not isinstance(v[k], str)]
            return bad[0] if bad else out
        return v

    # -- the views
    def check(self, full):
        self.obs.hit('checks')
        doc = self.doc
        live = [n for n in self.nodes if not n.dead]
        for m in live:
            if m.kind == 't' and m.obj is None:
                # created from a plain string: find it where it was put
                p = m.parent
                k = [x for x in p.children].index(m)
                ch = p.obj.childNodes
                if k >= len(ch) or ch[k].nodeType != 3 or str(ch[k]) != m.text:
                    return 'children of %s are %s instead of %s' % (mdesc(p), descs(ch), mdescs(p.children))
                m.obj = ch[k]
        for m in live:
            o = m.obj
            if o.ownerDocument is not doc:
                return '%s belongs to %s' % (mdesc(m), desc(o.ownerDocument))
            if m.parent is None and m.holder is None and o.parentNode is not None:
                return '%s is detached, but its parent is %s' % (mdesc(m), desc(o.parentNode))
            if m.holder is not None and m.kind != 't' and o.parentNode is not m.holder.obj:
                return 'attribute %s of %s has the parent %s' % (mdesc(m), mdesc(m.holder), desc(o.parentNode))
            if m.kind == 't':
                continue
            ch = o.childNodes
            want = [c.obj for c in m.children]
            if not same(ch, want):
                return 'children of %s are %s instead of %s' % (mdesc(m), descs(ch), mdescs(m.children))
            if len(o) != len(want) or not same(list(o), want) or not same([o[i] for i in range(len(want))], want):
                return 'iteration of %s differs from its children' % mdesc(m)
            if o.firstChild is not (want[0] if want else None) or o.lastChild is not (want[-1] if want else None):
                return 'first/last child of %s are %s, %s' % (mdesc(m), desc(o.firstChild), desc(o.lastChild))
            al = m.alias or m.attrs.get('self')
            for i, c in enumerate(want):
                p = c.parentNode
                if p is not o and not (isinstance(al, M) and p is al.obj):
                    return 'parent of %s in %s is %s' % (mdesc(m.children[i]), mdesc(m), desc(p))
                if c.previousSibling is not (want[i - 1] if i else None):
                    return 'previous sibling of child %d of %s is %s' % (i, mdesc(m), desc(c.previousSibling))
                if c.nextSibling is not (want[i + 1] if i + 1 < len(want) else None):
                    return 'next sibling of child %d of %s is %s' % (i, mdesc(m), desc(c.nextSibling))
        if not full:
            return None
        for m in live:
            o = m.obj
            t = text(m)
            if str(o.textContent) != t:
                return 'text of %s is %r instead of %r' % (mdesc(m), str(o.textContent), t)
            if m.kind == 't':
                continue
            if not same(o.allChildNodes, [x.obj for x in below(m)]):
                return 'all nodes below %s are %s' % (mdesc(m), descs(o.allChildNodes))
            names = NAMES[self.kind]
            for q in names + [[names[0], names[1]], 'nope']:
                qs = q if isinstance(q, list) else [q]
                got = o.getElementsByTagName(q)
                want = named(m, qs)
                self.obs.hit('lookup_hits', len(want))
                if sorted(map(id, got)) != sorted(id(x.obj) for x in want):
                    return 'lookup of %r in %s finds %s instead of %s' % (q, mdesc(m), descs(got), mdescs(want))
                ids = set(id(x.obj) for x in below(m))
                if not same([x for x in got if id(x) in ids], [x.obj for x in below(m) if x.kind == 'e' and x.name in qs]):
                    return 'lookup of %r in %s is not in document order: %s' % (q, mdesc(m), descs(got))
        return self.positions(live)

    def positions(self, live):
        info = []
        for m in live:
            path, n = [], m
            while n.parent is not None:
                path.append([k for k, x in enumerate(n.parent.children) if x is n][0])
                n = n.parent
            if m.alias or n.holder is not None and m is not n and False:
                continue
            info.append((m, n, path[::-1]))
        step = max(1, len(info) // 14)
        for ma, ra, pa in info[::step]:
            for mb, rb, pb in info:
                v = ma.obj.compareDocumentPosition(mb.obj)
                self.obs.hit('cmp_pairs')
                if ma is mb:
                    ok = v in (0, 0x20)
                    w = 'same'
                elif ra is not rb:
                    if ra.holder is not None or rb.holder is not None:
                        continue
                    ok, w = v & 1, 'disconnected'
                elif pb == pa[:len(pb)]:
                    ok, w = v & 8 and not v & 0x15, 'contains'
                elif pa == pb[:len(pa)]:
                    ok, w = v & 16 and not v & 0xB, 'contained by'
                elif pb < pa:
                    ok, w = v & 2 and not v & 0x1D, 'preceding'
                else:
                    ok, w = v & 4 and not v & 0x1B, 'following'
                if w in ('preceding', 'following') and len(pa) > 1 and len(pb) > 1 and pa[0] == pb[0]:
                    self.obs.hit('cousins')
                if not ok:
                    return 'position of %s (path %s) to %s (path %s) is %#x, not "%s"' % (mdesc(mb), pb, mdesc(ma), pa, v, w)
        return None


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def text(m):
    if m.kind == 't':
        return m.text
    return ''.join(text(c) for c in m.children)


def below(m):
    out = []
    for c in m.children:
        out.append(c)
        out += below(c)
    return out


def named(m, names):
    out = []
    for k, v in m.attrs.items():
        if k == 'self':
            continue
        for x in value_nodes(v):
            if x.kind == 'e' and x.name in names:
                out.append(x)
            if x.kind != 't':
                out += named(x, names)
    for c in m.children:
        if c.kind == 'e':
            if c.name in names:
                out.append(c)
            out += named(c, names)
    return out


def desc(o):
    if o is None:
        return 'None'
    if isinstance(o, str):
        return repr(str(o))
    n = getattr(o, 'nodeName', None) or type(o).__name__
    try:
        return '%s[%s]' % (n, ','.join(repr(str(x)) if isinstance(x, str) else str(x.nodeName) for x in o.childNodes))
    except Exception:
        return str(n)


def descs(l):
    return '[' + ', '.join(desc(x) for x in l) + ']'


def mdesc(m):
    if m.kind == 't':
        return repr(m.text)
    return '%s[%s]' % ({'d': '#document', 'f': '#fragment'}.get(m.kind, m.name),
                       ','.join(repr(c.text) if c.kind == 't' else str(c.name) for c in m.children))


def mdescs(l):
    return '[' + ', '.join(mdesc(x) for x in l) + ']'


# --- generation ------------------------------------------------------------------------------------------

def tree(s, names, depth, kinds='etf'):
    k = s.weighted([(4, 'e'), (5, 't'), (3, 'f')])
    if k not in kinds:
        k = 'e' if 'e' in kinds else 't'
    if k == 't':
        return ['t', s.choice(['x', 'y z', 'w', '', ' ', 'uv', '\xe9'])]
    n = s.weighted([(2, 0), (3, 1), (3, 2), (1, 3)]) if depth else 0
    ch = [tree(s, names, depth - 1, 'et') for _ in range(n)]
    if k == 'f':
        return ['f', ch]
    out = ['e', s.choice(names), ch]
    if s.bool(1, 3) and depth:
        at = {}
        for _ in range(s.int(1, 2)):
            w = s.weighted([(4, 'self'), (3, 'title'), (2, 'list'), (2, 'dict'), (1, 'plain'), (1, 'none'), (1, 'elem')])
            if w == 'self':
                at['self'] = ['f', [tree(s, names, depth - 1, 'et') for _ in range(s.int(0, 2))]]
            elif w == 'title':
                at['title'] = ['f', [tree(s, names, depth - 1, 'et') for _ in range(s.int(0, 3))]]
            elif w == 'list':
                at['list'] = ['L', tree(s, names, depth - 1, 'ef'), 'str'] + ([tree(s, names, 0, 'et')] if s.bool() else [])
            elif w == 'dict':
                at['dict'] = {'k': tree(s, names, depth - 1, 'ef'), 'n': 3}
            elif w == 'elem':
                at['el'] = ['e', s.choice(names), [tree(s, names, 0, 'et')]]
            elif w == 'plain':
                at['p'] = 'text'
            else:
                at['q'] = None
        out.append(at)
    return out


def gen_arg(s, names):
    k = s.weighted([(3, 'old'), (4, 'new'), (1, 's'), (1, 'raw')])
    if k == 'old':
        return ['old', s.int(0, 9)]
    if k == 'raw':
        return ['raw', s.choice(names)]
    if k == 's':
        return ['s', s.choice(['raw', 'r', ' '])]
    return tree(s, names, 2)


def gen(s, tier):
    kind = s.weighted([(3, 'dom'), (1, 'tex')])
    names = NAMES[kind]
    pool = [tree(s, names, 2) for _ in range(s.int(1, 4))]
    ops = []
    n = s.weighted([(3, s.int(1, 8)), (5, s.int(8, 20)), (2, s.int(20, 40))])
    for _ in range(n):
        name = s.weighted([(4, 'append'), (1, 'appendChild'), (4, 'insert'), (3, 'insertBefore'), (3, 'insertAfter'), (3, 'replaceChild'),
                           (2, 'removeChild'), (1, 'remove'), (1, 'pop'), (2, 'popi'), (4, 'setitem'), (2, 'extend'), (1, 'iadd'),
                           (2, 'normalize'), (2, 'cloneNode'), (1, 'clone0')])
        if name in ('extend', 'iadd') and s.bool(2, 3):
            a = [gen_arg(s, names) for _ in range(s.int(0, 3))]
            if not a:
                a = ['f', []]
        else:
            a = gen_arg(s, names)
        ops.append([name, s.int(0, 30), a, s.int(0, 15)])
    # Looking at a node creates its list of children: some histories are looked at in the end only
    blind = s.bool(1, 4)
    if blind:
        known = lambda a: ['t', a[1]] if a[:1] == ['s'] else a
        ops = [[n, i, known(a) if a and isinstance(a[0], str) else [known(x) for x in a], j] for n, i, a, j in ops[:s.int(0, 6)]]
    return {'doc': kind, 'pool': pool, 'ops': ops, 'blind': blind}


SMALL = [['append', 0, ['old', 0], 0], ['append', 1, ['old', 0], 0], ['append', 0, ['old', 1], 0], ['append', 2, ['old', 1], 0],
         ['insert', 0, ['old', 0], 4], ['insert', 0, ['old', 1], 3], ['insert', 1, ['old', 0], 5], ['insert', 2, ['old', 0], 4],
         ['insertBefore', 0, ['old', 0], 0], ['insertBefore', 0, ['old', 1], 1], ['insertAfter', 0, ['old', 0], 0],
         ['insertAfter', 1, ['old', 0], 1], ['replaceChild', 0, ['old', 0], 0], ['replaceChild', 1, ['old', 1], 1],
         ['removeChild', 0, ['old', 0], 0], ['removeChild', 1, ['old', 0], 1], ['pop', 0, ['old', 0], 0], ['popi', 1, ['old', 0], 6],
         ['popi', 0, ['old', 0], 7], ['setitem', 0, ['old', 0], 0], ['setitem', 0, ['old', 1], 1], ['setitem', 1, ['old', 0], 1],
         ['extend', 0, [['old', 0], ['old', 0]], 0], ['extend', 2, [['old', 0], ['s', 'r']], 0], ['normalize', 0, ['old', 0], 0],
         ['normalize', 1, ['old', 0], 0], ['cloneNode', 1, ['s', ''], 0]]
POOL = [['e', 'a', [['t', 'x'], ['t', 'y']]], ['f', [['t', 'u'], ['e', 'b', [['t', 'v']]]]], ['t', 'w']]
POOL2 = [['e', 'a', [], {'self': ['f', [['t', 'x'], ['e', 'b', []]]], 'title': ['f', [['t', 'h']]]}], ['t', 'w'], ['f', [['t', 'u'], ['t', 'v']]]]


def corpus(tier):
    """All sequences over a small pool: up to three operations (quick), four and a part of five (thorough)."""
    from os import environ
    seed = int(environ.get('VERIF_SEED', '1'))
    for pool in (POOL, POOL2):
        for n in (1, 2, 3):
            for k, ops in enumerate(itertools.product(SMALL, repeat=n)):
                if n == 3 and tier == 'quick' and (k + seed) % 3:
                    continue
                yield {'doc': 'dom', 'pool': pool, 'ops': [list(o) for o in ops]}
    if tier == 'thorough':
        for pool in (POOL, POOL2):
            for k, ops in enumerate(itertools.product(SMALL, repeat=4)):
                if (k + seed) % 3 == 0:
                    yield {'doc': 'dom', 'pool': pool, 'ops': [list(o) for o in ops]}
        few = [SMALL[i] for i in (0, 1, 3, 5, 9, 10, 12, 14, 20, 24)]
        for ops in itertools.product(few, repeat=5):
            yield {'doc': 'dom', 'pool': POOL, 'ops': [list(o) for o in ops]}


def run(case, obs):
    w = World(case['doc'], obs)
    obs.hit('histories')
    for p in case['pool']:
        w.make(p)
    short = len(case['ops']) <= 5
    blind = case.get('blind')
    if blind:
        obs.hit('blind')
    else:
        msg = w.check(True)
        if msg:
            return 'after the construction: ' + msg
    changed = 0
    for k, op in enumerate(case['ops']):
        before = shape(w)
        msg = w.apply(op)
        w.settle()
        if not blind or k == len(case['ops']) - 1:
            msg = msg or w.check(short or k % 4 == 3 or k == len(case['ops']) - 1)
        if msg:
            return 'operation %d %r: %s' % (k + 1, op, msg)
        changed += shape(w) != before
    obs.nontrivial = changed >= min(3, len(case['ops']))
    obs.seen('shapes', shape(w))
    # idempotence of the normalization of everything
    for m in w.containers():
        msg = w.apply(['normalize', w.containers().index(m), ['s', ''], 0]) or w.check(False)
        if msg:
            return 'final normalization: ' + msg
    return None


def shape(w):
    def f(m):
        return repr(m.text) if m.kind == 't' else '(%s %s)' % (m.name or m.kind, ' '.join(f(c) for c in m.children))
    return ' '.join(f(n) for n in w.nodes if n.parent is None and n.holder is None and not n.dead)


def show(case):
    return 'doc=%s pool=%r ops=%r' % (case['doc'], case['pool'], case['ops'])
