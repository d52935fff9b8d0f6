"""Rendering documents into a scratch directory."""
import os
import shutil
import tempfile


def configuration(renderer='HTML5', theme='default', options=None):
    from plasTeX.Config import defaultConfig
    config = defaultConfig()
    if renderer == 'HTML5':
        from plasTeX.Renderers.HTML5.Config import addConfig
        addConfig(config)
    config['general']['renderer'] = renderer
    config['general']['theme'] = theme
    config['general']['copy-theme-extras'] = False
    config['images']['imager'] = 'none'
    config['images']['vector-imager'] = 'none'
    config['images']['enabled'] = False
    for sec, key, value in options or []:
        config[sec][key] = value
    return config


def parse(src, config, jobname='job'):
    from plasTeX import TeXDocument
    from plasTeX.TeX import TeX
    doc = TeXDocument(config=config)
    tex = TeX(doc)
    doc.userdata['jobname'] = jobname
    tex.input(src)
    tex.parse()
    return doc


def render(src, renderer='HTML5', theme='default', options=None, binary=False, jobname='job'):
    """Returns the document and the files that were written {name: text}"""
    from plasTeX.Compile import load_renderer
    config = configuration(renderer, theme, options)
    cwd = os.getcwd()
    base = os.environ.get('VERIF_SCRATCH') or ('/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    out = tempfile.mkdtemp(prefix='verif-', dir=base)
    try:
        os.chdir(out)
        doc = parse(src, config, jobname)
        doc.userdata['working-dir'] = out
        load_renderer(renderer, config).render(doc)
        files = {}
        for d, dirs, names in os.walk(out):
            for n in names:
                p = os.path.join(d, n)
                rel = os.path.relpath(p, out)
                with open(p, 'rb') as f:
                    data = f.read()
                files[rel] = data if binary else data.decode(config['files']['output-encoding'], 'replace')
        return doc, files
    except BaseException:
        # Leave no mixed-in methods behind for the following documents
        from plasTeX import Renderers
        from plasTeX.DOM import Node
        if 'renderer' in vars(Node):
            cls = type(Node.renderer).renderableClass
            del Node.renderer
            Renderers.unmix(Node, cls)
        raise
    finally:
        os.chdir(cwd)
        shutil.rmtree(out, ignore_errors=True)
