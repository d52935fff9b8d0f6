r"""C16: configuration values come from defaults, files and command line, in that order.

The table below lists every option with its type, documented default and flags, written down independently of the
code.  A case is a layering of 0-3 configuration files and a command line; a small model (replace, extend, merge)
says what each option reads back as after every layer, with interpolation done by an evaluator of its own.
All options of all sections are compared after every layer, not just the ones that were set.
"""
import contextlib
import io
import os
import shlex
import shutil
import tempfile

ID = 'C16'
RULE = 'a case counts if at least one option is set by a file or the command line'
QUICK = (20000, 40)
THOROUGH = (150000, 780)
ASSUMPTIONS = ['configuration files are well formed (no duplicate sections or keys, values of the right type)',
               'values of dictionary options contain no percent signs', 'references between options are not circular',
               'an unset option, an unknown section or an unknown option is not the subject of the property',
               'lists of the command line extend those of the files (as those of the files extend the default)']

S, I, F, B, L, D = 'str', 'int', 'float', 'bool', 'list', 'dict'
TABLE = [
    ('general', 'renderer', S, 'HTML5', ['--renderer']),
    ('general', 'theme', S, 'default', ['--theme']),
    ('general', 'extra-templates', L, [], ['--extra-templates']),
    ('general', 'copy-theme-extras', B, True, ['--copy-theme-extras', '--no-theme-extras']),
    ('general', 'kpsewhich', S, 'kpsewhich', ['--kpsewhich']),
    ('general', 'xml', B, False, ['--xml', None]),
    ('general', 'debug', B, False, ['--debug', None]),
    ('general', 'paux-dirs', L, [], ['--paux-dirs']),
    ('general', 'plugins', L, [], ['--plugins']),
    ('general', 'load-tex-packages', B, True, ['--load-tex-packages', '--no-load-tex-packages']),
    ('general', 'tex-packages', L, [], ['--tex-packages']),
    ('general', 'packages-dirs', L, [], ['--packages-dirs']),
    ('links', 'links', D, {}, ['--link']),
    ('counters', 'counters', D, {}, ['--counter']),
    ('files', 'input-encoding', S, 'utf-8', ['--input-encoding']),
    ('files', 'output-encoding', S, 'utf-8', ['--output-encoding']),
    ('files', 'escape-high-chars', B, False, ['--escape-high-chars', None]),
    ('files', 'split-level', I, 2, ['--split-level']),
    ('files', 'log', B, False, ['--log', None]),
    ('files', 'filename', S, 'index [$id, sect$num(4)]', ['--filename']),
    ('files', 'bad-chars', S, ': #$%%^&*!~`"\'=?/{}[]()|<>;\\,.', ['--bad-filename-chars']),
    ('files', 'bad-chars-sub', S, '-', ['--bad-filename-chars-sub']),
    ('files', 'directory', S, '$jobname', ['--dir', '-d']),
    ('images', 'scales', D, {}, ['--scales']),
    ('images', 'base-url', S, '', ['--image-base-url']),
    ('images', 'enabled', B, True, ['--enable-images', '--disable-images']),
    ('images', 'imager', S, 'gspdfpng pdftoppm dvipng dvi2bitmap gsdvipng OSXCoreGraphics', ['--imager']),
    ('images', 'vector-imager', S, 'pdf2svg dvisvgm', ['--vector-imager']),
    ('images', 'filenames', S, 'images/img-$num(4)', ['--image-filenames']),
    ('images', 'baseline-padding', I, 0, ['--image-baseline-padding']),
    ('images', 'scale-factor', F, 1.0, ['--image-scale-factor']),
    ('images', 'vector-compiler', S, '', ['--vector-image-compiler']),
    ('images', 'compiler', S, '', ['--image-compiler']),
    ('images', 'cache', B, False, ['--enable-image-cache', '--disable-image-cache']),
    ('images', 'save-file', B, False, ['--save-image-file', '--delete-image-file']),
    ('images', 'transparent', B, False, ['--transparent-images', '--opaque-images']),
    ('images', 'resolution', I, 0, ['--image-resolution']),
    ('document', 'base-url', S, '', ['--base-url']),
    ('document', 'title', S, '', ['--title']),
    ('document', 'toc-depth', I, 3, ['--toc-depth']),
    ('document', 'toc-non-files', B, False, ['--toc-non-files', None]),
    ('document', 'sec-num-depth', I, 2, ['--sec-num-depth']),
    ('document', 'index-columns', I, 2, ['--index-columns']),
    ('document', 'lang-terms', L, [], ['--lang-terms']),
    ('document', 'disable-charsub', L, [], ['--disable-charsub']),
    ('logging', 'logging', D, {}, ['--logging']),
    ('html5', 'extra-css', L, [], ['--extra-css']),
    ('html5', 'extra-js', L, [], ['--extra-js']),
    ('html5', 'theme-css', S, 'white', ['--theme-css']),
    ('html5', 'use-theme-css', B, True, ['--use-theme-css', '--no-theme-css']),
    ('html5', 'use-theme-js', B, True, ['--use-theme-js', '--no-theme-js']),
    ('html5', 'display-toc', B, True, ['--display-toc', '--no-display-toc']),
    ('html5', 'localtoc-level', I, None, ['--localtoc-level']),
    ('html5', 'breadcrumbs-level', I, 10, ['--breadcrumbs-level']),
    ('html5', 'use-mathjax', B, True, ['--use-mathjax', '--no-mathjax']),
    ('html5', 'mathjax-url', S, 'https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-chtml.js', ['--mathjax-url']),
    ('html5', 'mathjax-dollars', B, False, ['--dollars', '--no-dollars']),
    ('html5', 'filters', L, [], ['--filters']),
    ('mathjax-macros', 'macros', D, {}, ['--mj-macros']),
]
DVAL = {'links': S, 'counters': I, 'scales': F, 'logging': S, 'macros': S}
SECTIONS = []
for _row in TABLE:
    if _row[0] not in SECTIONS:
        SECTIONS.append(_row[0])
INDEX = {(r[0], r[1]): i for i, r in enumerate(TABLE)}
REQUIRED = (['cases', 'files_0', 'files_1', 'files_2', 'files_3', 'cli', 'no_cli', 'through_main', 'direct', 'missing_file',
             'api_set', 'override_file_file', 'override_file_cli', 'interp', 'interp_num', 'interp_chain', 'percent',
             'after_run', 'option_read', 'help']
            + ['file_%s' % t for t in (S, I, F, B, L, D)] + ['cli_%s' % t for t in (S, I, F, B, L, D)]
            + ['bool_%s_%s' % (w, v) for w in ('file', 'cli') for v in ('on', 'off')])

TRUES, FALSES = ['yes', 'true', 'on', '1'], ['no', 'false', 'off', '0']
WORDS = ['alpha', 'b c', 'x/y.css', 'http://example.com/a?b=c', "it's", 'a"b', 'a;b', 'k#1', 'é', 'C:\\dir', '[z]',
         '$jobname', 'A=B', 'name, other', '{q}', 'Mixed Case', 'yes', '12', '~/x', 'a:b', '*', '..', '_u_', '&amp;']


def default(row):
    if row[1] == 'localtoc-level':
        from plasTeX.DOM import Node
        return Node.DOCUMENT_LEVEL - 1
    return row[3]


# -- generation ---------------------------------------------------------------------------------------------------

class Gen(object):
    def __init__(self, s):
        self.s = s
        self.tags = []

    def ref(self, me):
        """A reference to an option that can't refer back to this one."""
        s = self.s
        for _ in range(5):
            i = s.int(0, len(TABLE) - 1)
            sec, key, typ = TABLE[i][:3]
            if typ in (S, L) and i >= me:
                continue
            if typ == D:
                continue
            if typ == I:
                self.tags.append('interp_num')
                return s.choice(['%%(%s)s', '%%(%s)d', '%%(%s)03d', '%%(%s)4d']) % key
            if typ == F:
                return s.choice(['%%(%s)s', '%%(%s).2f']) % key
            self.tags.append('interp')
            return '%%(%s)s' % key
        return 'w'

    def string(self, me):
        s = self.s
        out = ''
        for _ in range(s.weighted([(6, 1), (3, 2), (1, 3)])):
            k = s.weighted([(7, 'w'), (1, 'p'), (2, 'r')])
            if k == 'w':
                out += s.choice(WORDS)
            elif k == 'p':
                out += '%%'
                self.tags.append('percent')
            else:
                out += self.ref(me)
        return out

    def value(self, row, where):
        """The written value(s) of an option: (what the model gets, how it is written)."""
        s = self.s
        sec, key, typ = row[:3]
        me = INDEX[sec, key]
        if typ == S:
            v = self.string(me) if not s.bool(1, 15) else ''
            return v, v
        if typ == I:
            v = s.weighted([(1, 0), (4, s.int(1, 9)), (2, s.int(-10, -1)), (2, s.int(10, 2000))])
            return v, str(v)
        if typ == F:
            t = s.choice(['0.5', '2', '1.25', '-1.5', '10', '1e-2', '0', '.75', '3.'])
            return float(t), t
        if typ == B:
            v = s.bool()
            if where == 'file':
                t = s.choice(TRUES if v else FALSES)
                self.tags.append('bool_file_%s' % ('on' if v else 'off'))
                return v, s.choice([t, t, t.upper(), t.capitalize()])
            if row[4][1] is None:
                v = True
            self.tags.append('bool_cli_%s' % ('on' if v else 'off'))
            return v, row[4][0 if v else 1]
        if typ == L:
            items = [self.string(me) for _ in range(s.weighted([(4, 1), (3, 2), (1, 3), (1, 0)]))]
            if where == 'file':
                quote = [self.quote(x) for x in items]
                return items, s.choice([' ', '  ', '\n  ']).join(quote)
            return [x for x in items], [x for x in items]
        raise AssertionError(typ)

    def quote(self, x):
        if x and '\\' not in x and '"' not in x and self.s.bool(1, 4):
            return '"%s"' % x
        return shlex.quote(x)

    def dval(self, key):
        s = self.s
        if DVAL[key] == I:
            v = s.int(-3, 30)
            return v, str(v)
        if DVAL[key] == F:
            t = s.choice(['0.5', '2', '1.25', '-1.5', '1e2', '0'])
            return float(t), t
        v = s.choice(['x', 'The Next', 'http://example.com/g', '\\mathbb{R}', 'A=B', 'Title: part', 'é', '\\alpha \\beta', 'DEBUG', '12'])
        return v, v

    def dkey(self, key):
        s = self.s
        return s.choice({'links': ['next-url', 'next-title', 'mylink-title', 'Foo-url', 'foo-url', 'Foo-title'],
                         'counters': ['chapter', 'part', 'Thm', 'thm', 'enumi', 'A'],
                         'scales': ['tikzcd', 'forest', 'Table', 'table', 'picture'],
                         'logging': ['parse.environments', 'test', 'Test', 'render.images', 'A.B'],
                         'macros': ['RR', 'rr', 'Rr', 'NN', 'abs', 'x1']}[key])


def parts(row):
    return '%s/%s' % (row[0], row[1])


def gen(s, tier):
    g = Gen(s)
    nfiles = s.weighted([(1, 0), (3, 1), (3, 2), (2, 3)])
    dense = s.weighted([(2, 4), (2, 10), (1, 25)])
    focus = [s.choice(TABLE) for _ in range(s.int(1, 4))]
    layers, files = [], []
    for n in range(nfiles):
        rows = [r for r in TABLE if r in focus and s.bool(3, 4) or s.bool(1, dense * 2)]
        layers.append([])
        bysec = {}
        for row in rows:
            sec, key, typ = row[:3]
            if typ == D:
                entries = {}
                for _ in range(s.int(1, 3)):
                    k = g.dkey(key)
                    v, t = g.dval(key)
                    entries[k] = (v, t)
                if s.bool(1, 4) and not any(',' in t for _, t in entries.values()):
                    # all entries in one line
                    bysec.setdefault(sec, []).append((key, s.choice([',', ', ']).join(
                        '%s=%s' % (k, t) for k, (_, t) in entries.items())))
                else:
                    for k, (v, t) in entries.items():
                        bysec.setdefault(sec, []).append((k, t))
                layers[-1].append([parts(row), {k: v for k, (v, t) in entries.items()}])
            else:
                v, t = g.value(row, 'file')
                layers[-1].append([parts(row), v])
                bysec.setdefault(sec, []).append((key, t))
            g.tags.append('file_' + typ)
        secs = list(bysec)
        s.shuffle(secs)
        text = s.choice(['', '# a comment\n', '; another comment\n\n'])
        for sec in secs:
            lines = bysec[sec]
            s.shuffle(lines)
            text += '[%s]\n' % sec
            for k, t in lines:
                text += '%s%s%s\n' % (k, s.choice(['=', ' = ', ' =', ': ']), t)
            text += s.choice(['', '\n', '# done\n'])
        files.append(text)
    argv = []
    cli = None
    if s.bool(3, 4):
        cli = []
        rows = [r for r in TABLE if r in focus and s.bool(2, 3) or s.bool(1, dense * 2)]
        chunks = []
        for row in rows:
            sec, key, typ, _, flags = row
            flag = flags[0]
            if typ == D:
                entries = {}
                for _ in range(s.int(1, 3)):
                    k = g.dkey(key)
                    v, t = g.dval(key)
                    if key == 'links':
                        k = s.choice(['next', 'mylink', 'Foo', 'foo'])
                        v2, t2 = g.dval(key)
                        if s.bool():
                            entries[k + '-title'] = v
                            chunks.append([flag, k, t])
                        else:
                            entries[k + '-url'] = v
                            entries[k + '-title'] = v2
                            chunks.append([flag, k, t, t2])
                    else:
                        entries[k] = v
                        chunks.append([flag, k, t])
                # several chunks may set the same key: keep them in order
                own = [c for c in chunks if c[0] == flag]
                chunks = [c for c in chunks if c[0] != flag]
                chunks.append([x for c in own for x in c])
                cli.append([parts(row), entries])
            elif typ == B:
                v, t = g.value(row, 'cli')
                chunk = [t]
                if flags[1] and s.bool(1, 8):
                    chunk = [flags[1 if v else 0], t]
                chunks.append(chunk)
                cli.append([parts(row), v])
            elif typ == L:
                v, t = g.value(row, 'cli')
                t = [x if not x.startswith('-') else 'x' + x for x in t]
                v = [x if not x.startswith('-') else 'x' + x for x in v]
                chunk = [flag] + t
                if s.bool(1, 3):
                    v2, t2 = g.value(row, 'cli')
                    chunk += [flag] + t2
                    v = v + v2
                chunks.append(chunk)
                cli.append([parts(row), v])
            else:
                v, t = g.value(row, 'cli')
                flag = s.choice(flags)
                form = s.weighted([(3, 'sep'), (2, 'eq')])
                if t.startswith('-') and typ == S or not flag.startswith('--') and not t:
                    form = 'eq'
                if not flag.startswith('--'):
                    flag, form = '--dir', 'eq'
                    if t and s.bool() and t[0] not in '-=':
                        chunks.append(['-d' + t])
                        cli.append([parts(row), v])
                        g.tags.append('cli_' + typ)
                        continue
                chunks.append([flag, t] if form == 'sep' else [flag + '=' + t])
                cli.append([parts(row), v])
            g.tags.append('cli_' + typ)
        s.shuffle(chunks)
        argv = [x for c in chunks for x in c]
    case = {'files': files, 'layers': layers, 'argv': argv, 'cli': cli, 'tags': sorted(set(g.tags)),
            'mode': s.weighted([(3, 'direct'), (2, 'main')]), 'missing': s.bool(1, 5),
            'read': s.choice(['list', 'each', 'each']), 'api': None, 'after': s.bool(1, 6)}
    if s.bool(1, 3):
        row = s.choice([r for r in TABLE if r[2] != D])
        g2 = Gen(s)
        v, t = g2.value(row, 'file')
        case['api'] = [parts(row), v]
        case['tags'] = sorted(set(case['tags'] + g2.tags))
    return case


def corpus(tier):
    return [{'help': True}]


# -- model --------------------------------------------------------------------------------------------------------

def fresh():
    return {parts(r): (list(default(r)) if r[2] == L else dict(default(r)) if r[2] == D else default(r)) for r in TABLE}


def apply(state, layer):
    for name, v in layer or []:
        typ = TABLE[INDEX[tuple(name.split('/'))]][2]
        if typ == L:
            state[name] = state[name] + v
        elif typ == D:
            state[name] = dict(state[name], **v)
        else:
            state[name] = v


class Eval(object):
    def __init__(self, state):
        self.state = state
        self.depth = self.deepest = 0
        first = {}
        for r in TABLE:
            first.setdefault(r[1], parts(r))
        self.first = first

    def text(self, t):
        out, i = '', 0
        self.depth += 1
        self.deepest = max(self.depth, self.deepest)
        while i < len(t):
            if t[i] != '%':
                out += t[i]
                i += 1
            elif t[i + 1] == '%':
                out += '%'
                i += 2
            else:
                assert t[i + 1] == '(', t
                j = t.index(')', i)
                value = self.option(self.first[t[i + 2:j]])
                k = j + 1
                while t[k] not in 'sdf':
                    k += 1
                spec, conv = t[j + 1:k], t[k]
                out += format(value, spec + conv) if conv in 'df' else str(value)
                i = k + 1
        self.depth -= 1
        return out

    def option(self, name):
        v = self.state[name]
        if isinstance(v, str):
            return self.text(v)
        if isinstance(v, list):
            return [self.text(x) for x in v]
        return v


def compare(config, state, when, obs):
    ev = Eval(state)
    for row in TABLE:
        name = parts(row)
        want = ev.option(name)
        sec = config[row[0]]
        got = sec[row[1]]
        obs.hit('option_read')
        if type(got) is not type(want) or got != want:
            return '%s reads back as %r %s, should be %r' % (name, got, when, want)
        again = sec.get(row[1])
        if again != want:
            return '%s reads as %r with get() %s, should be %r' % (name, again, when, want)
    if ev.deepest > 2:
        obs.hit('interp_chain')
    return None


def collected():
    from plasTeX.Config import defaultConfig
    from plasTeX.client import collect_renderer_config
    config = defaultConfig()
    collect_renderer_config(config)
    return config


def run(case, obs):
    from argparse import ArgumentParser
    if case.get('help'):
        return run_help(obs)
    obs.hit('cases')
    for t in case['tags']:
        obs.hit(t)
    obs.hit('files_%d' % len(case['files']))
    obs.hit('cli' if case['cli'] is not None else 'no_cli')
    seen = {}
    for n, layer in enumerate(case['layers'] + [case['cli'] or []]):
        for name, _ in layer:
            where = 'cli' if n == len(case['layers']) else 'file'
            if name in seen:
                obs.hit('override_file_' + where)
            seen[name] = where
    obs.nontrivial = bool(seen)
    obs.seen('shapes', tuple(sorted(seen.items())))
    tmp = tempfile.mkdtemp(prefix='c16-')
    old = os.getcwd()
    try:
        os.chdir(tmp)
        names = []
        for n, text in enumerate(case['files']):
            names.append('conf%d.ini' % n)
            with open(names[-1], 'w', encoding='utf-8') as fh:
                fh.write(text)
        return observe(case, obs, names)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)


def observe(case, obs, names):
    from argparse import ArgumentParser
    state = fresh()
    if case['missing']:
        obs.hit('missing_file')
        names = names[:1] + ['nosuch.ini'] + names[1:]
    if case['mode'] == 'main':
        obs.hit('through_main')
        for layer in case['layers']:
            apply(state, layer)
        apply(state, case['cli'])
        argv = []
        for n, name in enumerate(names):
            argv += [['-c', name], ['--config', name], ['--config=' + name]][n % 3]
        config = through_main(argv + case['argv'] + ['--', 'doc.tex'])
        if config is None:
            return 'main() did not get to processing the document'
        msg = compare(config, state, 'after the whole command line', obs)
    else:
        obs.hit('direct')
        config = collected()
        parser = ArgumentParser('t')
        config.registerArgparse(parser)
        msg = compare(config, state, 'as default', obs)
        if msg:
            return msg
        layers = list(case['layers'])
        if case['missing']:
            layers[1:1] = [[]]
        if case['read'] == 'list':
            config.read(names)
            for layer in layers:
                apply(state, layer)
            msg = compare(config, state, 'after the files', obs)
        else:
            for n, (name, layer) in enumerate(zip(names, layers)):
                config.read(name if n % 2 else [name])
                apply(state, layer)
                msg = compare(config, state, 'after file %d' % (n + 1), obs)
                if msg:
                    return msg
        if msg:
            return msg
        config.updateFromDict(vars(parser.parse_args(case['argv'])))
        apply(state, case['cli'])
        msg = compare(config, state, 'after the command line', obs)
    if msg:
        return msg
    if case['api']:
        obs.hit('api_set')
        name, v = case['api']
        sec, key = name.split('/')
        config[sec][key] = list(v) if isinstance(v, list) else v
        state[name] = v
        msg = compare(config, state, 'after setting %s from Python' % name, obs)
        if msg:
            return msg
    if case['after']:
        obs.hit('after_run')
        msg = after_run(config, state, obs)
        if msg:
            return msg
    return compare(collected(), fresh(), 'in a new configuration', obs)


def through_main(argv):
    from plasTeX import client, Compile, ConfigManager
    got = []

    def fake(*args, **kw):
        got.extend(x for x in list(args) + list(kw.values()) if isinstance(x, ConfigManager.ConfigManager))

    missing = object()
    saved = [(m, getattr(m, 'run', missing)) for m in (client, Compile)]
    try:
        for m, _ in saved:
            m.run = fake
        with contextlib.redirect_stdout(io.StringIO()):
            client.main(argv)
    except SystemExit as e:
        raise ValueError('the command line is rejected: %r' % (e.code,))
    finally:
        for m, f in saved:
            if f is missing:
                del m.run
            else:
                m.run = f
    return got[0] if got else None


def after_run(config, state, obs):
    """Processing a document doesn't change the options."""
    from plasTeX import TeXDocument
    from plasTeX.TeX import TeX
    keep = dict(state)
    for sec, key, v in (('document', 'lang-terms', []), ('general', 'plugins', []), ('general', 'packages-dirs', []),
                        ('general', 'paux-dirs', []), ('files', 'input-encoding', 'utf-8'), ('counters', 'counters', {}),
                        ('logging', 'logging', {}), ('general', 'load-tex-packages', False), ('general', 'tex-packages', [])):
        config[sec][key] = type(v)(v)
        keep['%s/%s' % (sec, key)] = v
    doc = TeXDocument(config=config)
    tex = TeX(doc)
    tex.input('\\documentclass{article}\\usepackage{ifthen}\\begin{document}\\section{A}\\begin{tabular}{l}a\\end{tabular}'
              ' $x$ \\today\\tableofcontents\\end{document}')
    tex.parse().toXML()
    return compare(config, keep, 'after parsing a document', obs)


def run_help(obs):
    """The command line help knows every option."""
    from argparse import ArgumentParser
    obs.hit('help')
    obs.nontrivial = True
    config = collected()
    parser = ArgumentParser('t')
    config.registerArgparse(parser)
    text = parser.format_help()
    for row in TABLE:
        for flag in row[4]:
            if flag and flag not in text:
                return '%s is not in the help' % flag
    return None


def show(case):
    if case.get('help'):
        return 'help'
    out = ''
    for n, t in enumerate(case['files']):
        out += '--- conf%d.ini\n%s\n' % (n, t)
    return out + '--- argv: %s (%s)\n--- set from Python: %r' % (' '.join(shlex.quote(x) for x in case['argv']), case['mode'], case['api'])
