r"""C20: cross-document label data survives a round trip and never blocks processing.

Three kinds of executions are observed:

* histories: random sequences of save / damage / interrupted save / restore over one file with several renderers, on
  real contexts with generated labels, against a model of what the file may contain;
* sweeps: every truncation point of a saved file, every single-bit flip of a small one (or a sample for larger ones),
  random multi-bit damage: each is restored into a new context;
* pipelines: documents are processed by plasTeX.Compile.run with real renderers, the references of the second document
  to the labels of the first one must be the same links with the same numbers as in the first one, whatever happens to
  the saved files processing doesn't fail, and the second document's own file is complete after it.
"""
import contextlib
import glob
import io
import os
import pickle
import re
import resource
import shutil
import tempfile

ID = 'C20'
RULE = 'an execution counts if a file with at least one label was saved'
QUICK = (1800, 40)
THOROUGH = (60000, 780)
CASE_WALL = 120
REQUIRED = ['saves', 'restores', 'labels_restored', 'intact_restores', 'damaged_restores', 'restores_missing', 'restores_other',
            'dmg_trunc', 'dmg_flip', 'dmg_multi', 'dmg_empty', 'dmg_foreign', 'dmg_delete', 'dmg_append', 'crash_save',
            'resave_after_damage', 'resave_smaller', 'two_renderers', 'all_truncations', 'all_flips', 'truncations', 'flips',
            'pipelines', 'pipe_html5', 'pipe_xhtml', 'pipe_text', 'pipe_refs', 'pipe_damaged', 'pipe_titles', 'pipe_xr',
            'pipe_dirs', 'pipe_rerun', 'dir_in_place']
ASSUMPTIONS = ['no two documents whose labels are restored define the same label',
               'damage does not forge a consistent file']

MEMORY = 6 << 30

RENDERERS = ['HTML5', 'XHTML', 'Text', 'none', '/x/my renderer']
LABELS = ['sec:a', 'sec:b', 'eq:1', 'fig:x', 'A_b', 'x-y', 'é', 'two words', 'thm.1', 'z', 'Sec:A', '1', 'a/b', "o'k"]
FOREIGN = ['text', 'tex', 'list', 'int', 'none', 'dict_of_lists', 'dict_of_none', 'labels_none', 'labels_list', 'gzip',
           'nul', 'json', 'intkeys', 'class', 'string', 'set', 'labels_str']


def limit_memory():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    if soft == resource.RLIM_INFINITY or soft > MEMORY:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, hard))


# -- generation ---------------------------------------------------------------------------------------------------

WORDS = ['Alpha', 'beta', 'Gamma', 'delta 2', 'é', 'x < y', '100%', 'q & a', '']


def attrs(s, label):
    out = {'id': label}
    if s.bool(5, 6):
        out['ref'] = s.choice(['1', '2.3', 'A.1', 'IV', '10', 'a', '1.2.3.4'])
    if s.bool(1, 2):
        out['title'] = s.choice(WORDS)
    if s.bool(1, 2):
        out['captionName'] = s.choice(['Figure', 'section', 'Équation', ''])
    if s.bool(5, 6):
        out['url'] = s.choice(['index.html', 'sect%04d.html' % s.int(1, 9), 'x/y z.html']) + s.choice(['', '#' + label])
    out['how'] = s.choice(['plain', 'url'])
    return out


def labelset(s, small=False):
    n = s.int(1, 2) if small else s.weighted([(1, 0), (4, 1), (4, s.int(2, 4)), (1, s.int(5, 12))])
    return {l: attrs(s, l) for l in s.sample(LABELS, n)}


def damage(s):
    k = s.weighted([(3, 'trunc'), (3, 'flip'), (3, 'multi'), (1, 'empty'), (2, 'foreign'), (1, 'delete'), (1, 'append'), (1, 'dir')])
    if k in ('trunc',):
        return [k, s.int(0, 9999)]
    if k == 'flip':
        return [k, s.int(0, 9999), s.int(0, 7)]
    if k == 'multi':
        return [k, [[s.int(0, 9999), s.int(0, 7)] for _ in range(s.int(2, 6))]]
    if k == 'foreign':
        return [k, s.choice(FOREIGN)]
    return [k]


def gen(s, tier):
    kind = s.weighted([(60, 'history'), (6, 'trunc'), (6, 'flip'), (28, 'pipe')])
    if kind == 'history':
        ops = []
        names = s.sample(RENDERERS, s.weighted([(1, 1), (3, 2), (1, 3)]))
        for _ in range(s.int(3, 12)):
            op = s.weighted([(5, 'save'), (4, 'damage'), (5, 'restore'), (1, 'crash')])
            if op == 'save':
                ops.append([op, s.choice(names), labelset(s)])
            elif op == 'crash':
                ops.append([op, s.choice(names), labelset(s), s.int(0, 600)])
            elif op == 'restore':
                ops.append([op, s.choice(names)])
            else:
                ops.append([op] + damage(s))
        ops.append(['restore', s.choice(names)])
        ops.append(['save', s.choice(names), labelset(s)])
        ops.append(['restore', ops[-1][1]])
        return {'kind': kind, 'ops': ops}
    if kind in ('trunc', 'flip'):
        return {'kind': kind, 'labels': labelset(s, small=kind == 'flip'), 'other': labelset(s, small=True) if s.bool() else None,
                'renderer': s.choice(RENDERERS[:3]), 'bits': s.int(0, 7), 'resave': s.bool(1, 3)}
    return pipe(s)


# -- documents for the pipelines ----------------------------------------------------------------------------------

def document(s, cls, prefix, nums):
    """Body with labels; returns (body, labels {label: title words or None})."""
    labels = {}
    out = ''
    words = ['Aleph', 'Beth', 'Gimel', 'Daleth', 'He', 'Waw']

    def title():
        w = [s.choice(words) for _ in range(s.int(1, 3))]
        t = ' '.join(w)
        k = s.int(0, 5)
        if k == 0:
            t = '\\textbf{%s} Z' % t
            w.append('Z')
        elif k == 1:
            t = t + ' \\emph{Q}'
            w.append('Q')
        elif k == 2:
            t = t + ' é'
            w.append('é')
        return t, w

    def new(words=None):
        name = prefix + s.choice(['sec:', 'x-', '', 'A_', 'é', 'eq.']) + str(len(labels))
        labels[name] = words
        return '\\label{%s}' % name

    for _ in range(s.int(1, 6)):
        k = s.choice(['sec', 'sec', 'sub', 'eq', 'fig', 'tab', 'item', 'thm', 'align', 'chap' if cls == 'book' else 'sec', 'two', 'star'])
        if k in ('sec', 'sub', 'chap'):
            t, w = title()
            out += '\\%s{%s}%s\n' % ({'sec': 'section', 'sub': 'subsection', 'chap': 'chapter'}[k], t, new(w))
        elif k == 'two':
            t, w = title()
            out += '\\section{%s}%s%s\n' % (t, new(w), new(w))
        elif k == 'eq':
            out += '\\begin{equation}%sx+1\\end{equation}\n' % new()
        elif k in ('fig', 'tab'):
            e = {'fig': 'figure', 'tab': 'table'}[k]
            out += '\\begin{%s}c\\caption{Cap}%s\\end{%s}\n' % (e, new(), e)
        elif k == 'item':
            out += '\\begin{enumerate}\\item%s I\\item J\\item%s K\\end{enumerate}\n' % (new(), new())
        elif k == 'thm':
            out += '\\begin{thm}%sT\\end{thm}\n' % new()
        elif k == 'star':
            out += '\\section*{Star}S\n'
        elif k == 'align':
            out += '\\begin{align}a%s\\\\b%s\\end{align}\n' % (new(), new())
        out += 'Text %d.\n\n' % len(labels)
    return out, labels


def refs(labels):
    return 'Begin\n\n' + ''.join('qq%dz \\ref{%s} zz%dq\n\n' % (n, l, n) for n, l in enumerate(labels))


def pipe(s):
    cls = s.choice(['article', 'article', 'book'])
    body, labels = document(s, cls, 'a', None)
    body2, labels2 = document(s, 'article', 'b', None)
    pre = '\\usepackage{amsmath}\\newtheorem{thm}{Theorem}'
    how = s.weighted([(4, 'cwd'), (2, 'dirs'), (2, 'xr')])
    case = {'kind': 'pipe', 'how': how, 'labels': labels, 'labels2': labels2,
            'a': '\\documentclass{%s}%s\\begin{document}%s\\section{R}%s\\end{document}' % (cls, pre, body, refs(labels)),
            'split': s.choice([-10, 2, 1]), 'renderers': None, 'prefix': '', 'url': ''}
    pre2 = '\\usepackage{amsmath}\\newtheorem{thm}{Lemma}'
    names = list(labels)
    if how == 'xr':
        case['prefix'] = s.choice(['', 'p-', 'X:'])
        case['url'] = s.choice(['', 'http://example.com/a', 'sub/a/'])
        pre2 += '\\usepackage{xr}\\externaldocument%s{sub/a}%s' % (
            '[%s]' % case['prefix'] if case['prefix'] or s.bool(1, 4) else '', '[%s]' % case['url'] if case['url'] else '')
    case['b'] = '\\documentclass{article}%s\\begin{document}%s%s\\section{R}%s\\end{document}' % (
        pre2, body2, refs([case['prefix'] + l for l in names]),
        '\n\n'.join('own%dz \\ref{%s}' % (n, l) for n, l in enumerate(labels2)))
    rs = [s.choice(['HTML5', 'HTML5', 'XHTML', 'Text'])]
    if s.bool(1, 4):
        rs.append(s.choice([r for r in ('HTML5', 'XHTML', 'Text') if r not in rs]))
    ops = [['A', r] for r in rs] + [['B', rs[0]]]
    for _ in range(s.weighted([(2, 0), (3, 1), (2, 2)])):
        ops.append(['damage', s.choice('aab')] + damage(s))
        ops.append(['B', s.choice(rs)])
    if s.bool(1, 2):
        ops.append(['A', rs[0]])
        ops.append(['B', rs[0]])
    case['ops'] = ops
    case['renderers'] = rs
    return case


# -- damage -------------------------------------------------------------------------------------------------------

def foreign(name):
    import gzip
    return {'text': b'This is not a pickle.\n', 'tex': b'\\newlabel{a}{{1}{1}}\n', 'list': pickle.dumps([1, 2, 3]),
            'int': pickle.dumps(5), 'none': pickle.dumps(None), 'dict_of_lists': pickle.dumps({r: ['x'] for r in RENDERERS}),
            'dict_of_none': pickle.dumps({r: None for r in RENDERERS}),
            'labels_none': pickle.dumps({r: {'foreign': None} for r in RENDERERS}),
            'labels_list': pickle.dumps({r: {'foreign': ['ref', '1']} for r in RENDERERS}),
            'labels_str': pickle.dumps({r: {'foreign': '1'} for r in RENDERERS}),
            'gzip': gzip.compress(b'x' * 50), 'nul': b'\0' * 100, 'json': b'{"HTML5": {}}', 'intkeys': pickle.dumps({1: {2: 3}}),
            'class': b'cnosuchmodule\nNoClass\n.', 'string': pickle.dumps('HTML5'), 'set': pickle.dumps({'HTML5'})}[name]


def do_damage(path, d, obs):
    """Returns 'absent', 'damaged' or 'foreign'; None if nothing happened."""
    k = d[0]
    if os.path.isdir(path):
        os.rmdir(path)
    data = None
    if os.path.exists(path):
        with open(path, 'rb') as fh:
            data = fh.read()
    if k == 'delete':
        if data is not None:
            os.remove(path)
        obs.hit('dmg_delete')
        return 'absent'
    if k == 'dir':
        if data is not None:
            os.remove(path)
        os.mkdir(path)
        obs.hit('dir_in_place')
        return 'absent'
    if k == 'foreign':
        new = foreign(d[1])
    elif k == 'empty':
        new = b''
    elif not data:
        return None
    elif k == 'trunc':
        new = data[:d[1] % len(data)]
    elif k == 'append':
        new = data + b'\nmore'
    else:
        new = bytearray(data)
        for pos, bit in ([d[1:]] if k == 'flip' else d[1]):
            new[pos % len(data)] ^= 1 << bit
        new = bytes(new)
        if new == data:
            return None
    with open(path, 'wb') as fh:
        fh.write(new)
    obs.hit('dmg_' + k)
    return 'foreign' if k == 'foreign' else 'damaged'


# -- observing contexts -------------------------------------------------------------------------------------------

def saved_context(labels):
    """A context of a document with these labels."""
    from plasTeX import TeXDocument, Command
    from plasTeX.Renderers import URL
    doc = TeXDocument()
    for label, at in labels.items():
        n = Command()
        n.ownerDocument = doc
        for key, value in at.items():
            if key == 'how':
                continue
            if at['how'] == 'url' and key == 'url':
                value = URL(value)
            setattr(n, key, value)
        doc.context.label(label, n)
    return doc.context


def location(n):
    from plasTeX.Renderers import Renderable
    try:
        return Renderable.url.fget(n)
    except AttributeError:
        return None


def view(n):
    out = {}
    for key in ('ref', 'title', 'captionName', 'id'):
        value = getattr(n, key, None)
        if value is not None:
            out[key] = str(value)
    url = location(n)
    if url is not None:
        out['url'] = str(url)
    return out


def wanted(at):
    return {k: v for k, v in at.items() if k != 'how'}


def same(got, want):
    """Number, title and location are the same."""
    for key in ('ref', 'title', 'url'):
        if got.get(key) != want.get(key):
            return '%s is %r instead of %r' % (key, got.get(key), want.get(key))
    if want.get('captionName') and got.get('captionName') != want['captionName']:
        return 'captionName is %r instead of %r' % (got.get('captionName'), want['captionName'])
    return None


def restore(path, renderer, obs, context=None):
    from plasTeX import TeXDocument
    if context is None:
        context = TeXDocument().context
    before = set(context.labels)
    warn = context.warnOnUnrecognized
    with contextlib.redirect_stderr(io.StringIO()):
        context.restore(path, renderer)
    obs.hit('restores')
    if context.warnOnUnrecognized != warn:
        return None, 'restoring changes whether unknown macros are reported'
    return {k: view(v) for k, v in context.labels.items() if k not in before}, None


def check_restored(got, want, exact, obs):
    """want: {label: attrs} that may be restored; exact: all of them must be."""
    for label, v in got.items():
        if label not in want:
            return 'label %r was not saved but is restored' % label
        msg = same(v, want[label])
        if msg:
            return 'label %r: %s' % (label, msg)
        obs.hit('labels_restored')
    if exact:
        lost = sorted(set(want) - set(got))
        if lost:
            return 'labels %r were saved but are not restored' % lost
    return None


def load(path, renderer, want):
    try:
        with open(path, 'rb') as fh:
            d = pickle.load(fh)
    except Exception as e:
        return 'the file saved can not be loaded: %r' % e
    try:
        labels = d[renderer]
        if set(labels) != set(want):
            return 'the file saved has the labels %r of %s instead of %r' % (sorted(labels), renderer, sorted(want))
    except (KeyError, TypeError) as e:
        return 'the file saved has no labels of %s: %r' % (renderer, e)
    return None


class Model(object):
    """What the file may contain."""

    def __init__(self):
        self.data = {}        # renderer: labels
        self.state = {}       # renderer: 'intact' / 'maybe'

    def saved(self, renderer, labels):
        self.data[renderer] = {k: wanted(v) for k, v in labels.items()}
        self.state[renderer] = 'intact'

    def damaged(self, how):
        for r in self.data:
            if how == 'absent' or how == 'foreign':
                self.data[r] = {}
            self.state[r] = 'maybe'


def run_history(case, obs, path):
    m = Model()
    hurt = False
    for op in case['ops']:
        if op[0] == 'save':
            if os.path.isdir(path):
                # nothing can be saved but nothing fails
                saved_context(op[2]).persist(path, op[1])
                os.rmdir(path)
            if set(op[2]) < set(m.data.get(op[1], ())):
                obs.hit('resave_smaller')
            saved_context(op[2]).persist(path, op[1])
            m.saved(op[1], op[2])
            obs.hit('saves')
            obs.nontrivial = obs.nontrivial or bool(op[2])
            if hurt:
                obs.hit('resave_after_damage')
            if len(m.data) > 1:
                obs.hit('two_renderers')
            msg = load(path, op[1], op[2])
            if msg:
                return msg
            hurt = False
        elif op[0] == 'crash':
            ctx = saved_context(op[2])
            if os.path.isdir(path):
                continue
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (op[3], hard))
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    ctx.persist(path, op[1])
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            obs.hit('crash_save')
            # old or new labels or none
            size = os.path.getsize(path) if os.path.exists(path) else 0
            if size >= op[3]:
                got, msg = restore(path, op[1], obs)
                if msg:
                    return msg
                old = m.data.get(op[1], {})
                new = {k: wanted(v) for k, v in op[2].items()}
                if check_restored(got, old, False, obs) and check_restored(got, new, False, obs):
                    return 'after an interrupted save %r is restored' % got
                m.damaged('damaged')
                m.data[op[1]] = new if not check_restored(got, new, False, obs) else old
                m.state[op[1]] = 'maybe'
                hurt = True
            else:
                m.saved(op[1], op[2])
        elif op[0] == 'damage':
            how = do_damage(path, op[1:], obs)
            if how:
                m.damaged(how)
                hurt = True
        else:
            got, msg = restore(path, op[1], obs)
            if msg:
                return msg
            want = m.data.get(op[1], {})
            exact = m.state.get(op[1]) == 'intact' and not os.path.isdir(path)
            if not want:
                obs.hit('restores_other')
            if not os.path.exists(path):
                obs.hit('restores_missing')
            obs.hit('intact_restores' if exact else 'damaged_restores')
            msg = check_restored(got, want, exact, obs)
            if msg:
                return msg
            obs.seen('restored', tuple(sorted(got)))
    return None


def run_sweep(case, obs, path):
    from plasTeX import TeXDocument
    r = case['renderer']
    if case['other']:
        saved_context(case['other']).persist(path, 'other')
    saved_context(case['labels']).persist(path, r)
    obs.hit('saves')
    obs.nontrivial = bool(case['labels'])
    msg = load(path, r, case['labels'])
    if msg:
        return msg
    with open(path, 'rb') as fh:
        data = fh.read()
    want = {k: wanted(v) for k, v in case['labels'].items()}
    context = TeXDocument().context
    if case['kind'] == 'trunc':
        damaged = [data[:n] for n in range(len(data))]
        obs.hit('truncations', len(damaged))
        obs.hit('all_truncations')
    else:
        bits = range(8) if len(data) < 500 else [case['bits'], (case['bits'] + 3) % 8]
        damaged = []
        for n in range(len(data)):
            for b in bits:
                x = bytearray(data)
                x[n] ^= 1 << b
                damaged.append(bytes(x))
        obs.hit('flips', len(damaged))
        if len(bits) == 8:
            obs.hit('all_flips')
    again = saved_context(case['labels'])
    for n, x in enumerate(damaged):
        with open(path, 'wb') as fh:
            fh.write(x)
        context.labels.clear()
        got, msg = restore(path, r, obs, context)
        msg = msg or check_restored(got, want, False, obs)
        if not msg and case['resave'] and n % 7 == 0:
            again.persist(path, r)
            obs.hit('resave_after_damage')
            msg = load(path, r, case['labels'])
            if not msg:
                context.labels.clear()
                got, msg = restore(path, r, obs, context)
                msg = msg or check_restored(got, want, True, obs)
        if msg:
            return '%s (%s, variant %d of a file of %d bytes)' % (msg, case['kind'], n, len(data))
    return None


# -- pipelines ----------------------------------------------------------------------------------------------------

def process(path, renderer, split, dirs, obs):
    from plasTeX.Compile import run
    from . import render
    options = [('files', 'split-level', split), ('general', 'paux-dirs', dirs), ('general', 'load-tex-packages', False)]
    config = render.configuration(renderer, 'minimal' if renderer == 'HTML5' else 'default', options)
    base = os.path.splitext(path)[0]
    config['files']['directory'] = 'out-' + base
    shutil.rmtree(os.path.join(os.getcwd(), 'out-' + base), ignore_errors=True)
    cwd = os.getcwd()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            run(path, config)
    except BaseException:
        unmix()
        raise
    finally:
        os.chdir(cwd)
    text = ''
    for name in sorted(glob.glob(os.path.join('out-' + base, '**', '*'), recursive=True)):
        if os.path.isfile(name) and not name.endswith(('.css', '.js')):
            with open(name, encoding='utf-8', errors='replace') as fh:
                text += fh.read()
    return text


def unmix():
    from plasTeX import Renderers
    from plasTeX.DOM import Node
    if 'renderer' in vars(Node):
        cls = type(Node.renderer).renderableClass
        del Node.renderer
        Renderers.unmix(Node, cls)


def segments(text):
    return {int(n): ' '.join(v.split()) for n, v in re.findall(r'qq(\d+)z\s*(.*?)\s*zz\1q', text, re.S)}


def words(markup):
    return re.sub(r'<[^>]*>|[*_/]', ' ', markup).split()


def run_pipe(case, obs, tmp):
    obs.hit('pipelines')
    obs.nontrivial = bool(case['labels'])
    how = case['how']
    obs.hit({'cwd': 'pipe_cwd', 'dirs': 'pipe_dirs', 'xr': 'pipe_xr'}[how])
    sub = os.path.join(tmp, 'sub')
    os.mkdir(sub)
    where = tmp if how == 'cwd' else sub
    with open(os.path.join(where, 'a.tex'), 'w', encoding='utf-8') as fh:
        fh.write(case['a'])
    with open(os.path.join(tmp, 'b.tex'), 'w', encoding='utf-8') as fh:
        fh.write(case['b'])
    paux = {'a': os.path.join(where, 'a.paux'), 'b': os.path.join(tmp, 'b.paux')}
    names = list(case['labels'])
    links = {}
    intact = {}
    runs_b = 0
    for op in case['ops']:
        if op[0] == 'A':
            if os.path.isdir(paux['a']):
                os.rmdir(paux['a'])
            os.chdir(where)
            text = process('a.tex', op[1], case['split'], [], obs)
            os.chdir(tmp)
            obs.hit('pipe_' + op[1].lower())
            links[op[1]] = segments(text)
            if set(links[op[1]]) != set(range(len(names))):
                return 'references of the first document are not in its output: %r' % (sorted(links[op[1]]),)
            intact[op[1]] = True
            msg = load(paux['a'], op[1], case['labels'])
            if msg:
                return 'first document: ' + msg
            got, msg = restore(paux['a'], op[1], obs)
            if msg:
                return msg
            for n, l in enumerate(names):
                if l not in got:
                    return 'label %r is not restored' % l
                if case['labels'][l] is not None:
                    obs.hit('pipe_titles')
                    if words(got[l].get('title', '')) != case['labels'][l]:
                        return 'label %r is restored with title %r, should be %r' % (l, got[l].get('title'), case['labels'][l])
        elif op[0] == 'damage':
            state = do_damage(paux[op[1]], op[2:], obs)
            obs.hit('pipe_damaged')
            if state and op[1] == 'a':
                intact = {}
                if state != 'damaged':
                    # rendered numbers can't come from anywhere
                    pass
        else:
            if os.path.isdir(paux['b']):
                os.rmdir(paux['b'])
            text = process('b.tex', op[1], case['split'], ['sub'] if how == 'dirs' else [], obs)
            runs_b += 1
            if runs_b > 1:
                obs.hit('pipe_rerun')
            got = segments(text)
            if set(got) != set(range(len(names))):
                return 'references of the second document are not in its output: %r' % (sorted(got),)
            for n, l in enumerate(names):
                obs.hit('pipe_refs')
                want = links[op[1]].get(n) if op[1] in links else None
                if want is not None and case['url']:
                    want = want.replace('href="', 'href="' + case['url'].rstrip('/') + '/')
                if got[n] == want:
                    continue
                if intact.get(op[1]):
                    return 'reference to %r is %r, should be %r' % (l, got[n], want)
                if re.search(r'\d', re.sub(r'<[^>]*>', '', got[n])):
                    return 'reference to %r whose file is damaged or not there is %r' % (l, got[n])
            msg = load(paux['b'], op[1], case['labels2'])
            if msg:
                return 'second document: ' + msg
    return None


def run(case, obs):
    limit_memory()
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    tmp = tempfile.mkdtemp(prefix='c20-', dir=base)
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        if case['kind'] == 'history':
            return run_history(case, obs, os.path.join(tmp, 'x.paux'))
        if case['kind'] in ('trunc', 'flip'):
            return run_sweep(case, obs, os.path.join(tmp, 'x.paux'))
        return run_pipe(case, obs, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def show(case):
    if case['kind'] == 'pipe':
        return '%s\n--- b.tex (%s)\n%s\n--- %r' % (case['a'], case['how'], case['b'], case['ops'])
    if case['kind'] == 'history':
        return '\n'.join(repr(o) for o in case['ops'])
    return repr(case)
