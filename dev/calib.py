"""Development aid: compare mon/minitex.py with the installed LaTeX. usage: calib.py cNN N [seed]"""
import importlib, os, re, subprocess, sys, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import core, minitex
m = importlib.import_module('mon.' + sys.argv[1])
N = int(sys.argv[2]); seed = int(sys.argv[3]) if len(sys.argv) > 3 else 77

def latex(src, pre=''):
    d = tempfile.mkdtemp(dir='/tmp')
    try:
        with open(d + '/a.tex', 'w') as f:
            f.write('\\batchmode\\documentclass{article}' + pre + '\\begin{document}\\showboxbreadth=99999 \\showboxdepth=99999 '
                    '\\hbadness=10000 \\newbox\\calbox\\makeatletter\\let\\@calhbox\\hbox\\makeatother\n'
                    '\\frenchspacing\\setbox\\calbox=\\hbox{%\n' + src + '}\\showbox\\calbox\\end{document}\n')
        subprocess.run(['latex', '-interaction=batchmode', 'a.tex'], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        log = open(d + '/a.log', encoding='latin1').read()
    finally:
        subprocess.run(['rm', '-rf', d])
    i = log.find('> \\box')
    errs = [l for l in log.split('\n') if l.startswith('! ') and not l.startswith('! OK')]
    if i < 0:
        return None, errs
    out = ''
    for l in log[i:].split('\n')[1:]:
        l = l.lstrip('.')
        mm = re.match(r'\\(?:OT1|T1|OML|OMS)/\S+ (\S+)', l)
        if mm:
            g = re.search(r'\(ligature (\S+)\)', l)
            t = g.group(1) if g else mm.group(1)
            if t.startswith('^^'): t = {'^^M':'fi'}.get(t, t)
            out += t
        elif l.startswith('\\glue'):
            out += ' '
        elif l == '':
            break
    return ' '.join(out.split()), errs

if __name__ == '__main__':
    cases = []
    i = 0
    if hasattr(m, 'DIRECTED'):
        for d in m.DIRECTED: cases.append(d)
    while len(cases) < N:
        c = m.gen(core.case_src(seed, m.ID, i), 'quick'); i += 1
        if c: cases.append(c['src'])
    def one(src):
        try: e = (m.ref(src) if hasattr(m,"ref") else minitex.run(src))
        except minitex.Invalid as x: return src, 'INVALID %s' % x, None, None
        return (src, minitex.squeeze(e.text()), *latex(src, getattr(m, 'CALIB_PRE', '')))
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for src, w, g, errs in ex.map(one, cases):
            if w is not None and w.startswith('INVALID'):
                print('directed invalid:', w, src); continue
            if w != g or errs:
                bad += 1
                if bad <= 8: print('SRC ', src, '\nREF ', w, '\nTEX ', g, errs[:2], '\n')
    print('compared', len(cases), 'bad', bad)
