r"""C17: a document's result does not depend on what was processed before it.

The worker never processes a document itself.  Each case is a history A1..Ak and a document B.  A child forked from the
pristine worker processes B alone; another one processes A1..Ak, then B, then B again.  The canonical XML (generated
identifiers renumbered) and, for some cases, the rendered files of B must be the same in all three.  Before and after
every document the settings stored on the classes of macros and nodes are recorded; none may differ.  For some cases the
children are new interpreters with other hash seeds.
"""
import json
import os
import re
import subprocess
import sys

ID = 'C17'
RULE = 'an execution counts if all documents of the history and B were processed'
QUICK = (3000, 40)
THOROUGH = (100000, 780)
CASE_WALL = 120
ASSUMPTIONS = ['documents that raise an exception are not part of a history', 'no \\today and no clock registers',
               'private caches (names with a leading underscore or @, containers that are empty at first) are not settings']
REQUIRED = ['b_parsed', 'b_rendered', 'a_processed', 'a_rendered', 'snapshots', 'settings', 'fresh_interpreters', 'twice',
            'k1', 'k2', 'k3', 'k4', 'a_register', 'a_class', 'a_package', 'a_columns', 'a_openmath', 'a_openlist', 'a_openbox',
            'a_opengroup', 'a_openif', 'a_opentab', 'a_ifthen', 'b_the', 'b_index', 'b_bib', 'b_lists', 'b_math', 'b_tab', 'b_args',
            'same_class', 'other_class', 'preimported', 'a_config', 'b_config']

DIMENS = '''arraycolsep tabcolsep arrayrulewidth doublerulesep fboxrule footnotesep marginparpush topsep partopsep itemsep parsep
leftmargin rightmargin listparindent itemindent labelsep labelwidth jot mathindent bibindent columnsep columnseprule paperheight
paperwidth oddsidemargin evensidemargin textheight textwidth topmargin headheight headsep footskip marginparsep marginparwidth
unitlength columnwidth linewidth tabbingsep hfuzz vfuzz overfullrule emergencystretch hsize vsize maxdepth splitmaxdepth boxmaxdepth
delimitershortfall nulldelimiterspace scriptspace mathsurround predisplaysize displaywidth displayindent parindent hangindent
hoffset voffset'''.split()
GLUES = '''floatsep textfloatsep intextsep dblfloatsep dbltextfloatsep baselineskip lineskip parskip abovedisplayskip
abovedisplayshortskip belowdisplayskip belowdisplayshortskip leftskip rightskip topskip splittopskip tabskip spaceskip xspaceskip
parfillskip'''.split()
COUNTS = '''pretolerance tolerance hbadness vbadness linepenalty hyphenpenalty exhyphenpenalty binoppenalty relpenalty clubpenalty
widowpenalty displaywidowpenalty brokenpenalty interlinepenalty outputpenalty doublehyphendemerits finalhyphendemerits adjdemerits
looseness holdinginserts lefthyphenmin righthyphenmin hangafter delimiterfactor maxdeadcycles'''.split()
MUGLUES = 'thinmuskip medmuskip thickmuskip'.split()

CLASSES = ['article', 'book', 'report', 'amsart', 'amsbook', 'beamer', 'memoir', 'jss']
PACKAGES = '''CJK CJKutf8 a4 a4wide afterpage alltt amsbsy amscd amsfonts amsmath amsopn amssymb amsthm babel bbding bbm bbold
booktabs cancel caption ccaption changebar cleveref color comment dsfont embed endfloat enumerate epsf eso-pic fancybox fancyhdr
fancyvrb fleqn float fontenc geometry graphics graphicx hyperref ifpdf iftex ifthen imakeidx inputenc keyval lipsum
listings lmodern longtable makeidx marginnote mathtime mathtools microtype minitoc multicol nameref natbib pslatex
pspicture pst-coil pstricks quotchap rotating setspace shortvrb splitbib subfig subfigure tabularx tabulary textcomp textpos
times tocbibind todonotes type1cm ucs url verbatim verse wasysym wrapfig xcolor xr xy beamerthemesplit html'''.split()
OPTIONS = {'babel': ['french', 'ngerman', 'english', 'spanish,french'], 'natbib': ['sectionbib', 'numbers', 'super', 'round', 'square,comma'],
           'xcolor': ['dvipsnames', 'svgnames', 'x11names'], 'color': ['dvipsnames'], 'hyperref': ['colorlinks'],
           'geometry': ['margin=1cm'], 'listings': ['draft'], 'inputenc': ['utf8', 'latin1'], 'fontenc': ['T1'],
           'subfig': ['position=top'], 'todonotes': ['disable'], 'amsmath': ['leqno'], 'enumerate': [''], 'minitoc': ['tight'],
           'cleveref': ['capitalise'], 'ifthen': ['']}

# -- generation ---------------------------------------------------------------------------------------------------

WORDS = ['alpha', 'beta', 'gamma', 'delta', 'eps']


def w(s):
    return s.choice(WORDS)


def dim(s):
    return '%d%s' % (s.int(1, 99), s.choice(['pt', 'cm', 'mm', 'sp', 'in']))


def register(s):
    k = s.int(0, 5)
    if k <= 1:
        return '\\%s=%s\\relax ' % (s.choice(DIMENS), dim(s))
    if k == 2:
        return '\\%s=%s plus %s minus %s\\relax ' % (s.choice(GLUES), dim(s), dim(s), dim(s))
    if k == 3:
        return '\\%s=%d\\relax ' % (s.choice(COUNTS), s.int(0, 12345))
    if k == 4:
        return '\\%s=%dmu plus %dmu\\relax ' % (s.choice(MUGLUES), s.int(1, 20), s.int(1, 9))
    r = s.choice(DIMENS)
    return s.choice(['\\%s=2\\%s\\relax ' % (r, s.choice(DIMENS)), '{\\%s=%s\\relax x}' % (r, dim(s)),
                     '\\global\\%s=%s\\relax ' % (r, dim(s)), '\\let\\zzz\\%s \\zzz=%s\\relax ' % (r, dim(s)),
                     '\\setlength{\\%s}{%s}' % (r, dim(s)), '\\addtolength\\%s{%s}' % (r, dim(s)),
                     '\\newdimen\\zzy \\zzy=%s\\relax \\%s=\\zzy ' % (dim(s), r),
                     '\\newcount\\zzx \\zzx=%d\\relax ' % s.int(0, 99), '\\newlength{\\zzw}\\setlength\\zzw{%s}' % dim(s),
                     '\\newskip\\zzv \\zzv=%s\\relax \\the\\zzv ' % dim(s), '\\newif\\ifzz \\zztrue \\ifzz y\\fi '])


def the(s):
    r = s.choice(s.choice([DIMENS, GLUES, COUNTS, MUGLUES, ['parindent', 'tolerance', 'parskip', 'hsize', 'textwidth']]))
    return s.weighted([(3, '\\the\\%s; ' % r), (1, '\\newdimen\\qqa \\qqa=\\%s\\relax \\the\\qqa; ' % s.choice(DIMENS)),
                       (1, '\\ifdim\\%s>%s B\\else S\\fi ' % (s.choice(DIMENS), dim(s))),
                       (1, '\\ifnum\\%s>%d B\\else S\\fi ' % (s.choice(COUNTS), s.int(0, 999))),
                       (1, '\\newcount\\qqb \\qqb=\\%s\\relax \\the\\qqb; ' % s.choice(COUNTS))])


def args(s, cls, pkgs):
    """Macros whose arguments depend on the class or on a package"""
    o = [lambda: '\\textbf{%s}' % w(s), lambda: '\\textbf <%s>' % w(s), lambda: '\\textit<1>{%s}' % w(s), lambda: '\\textsf <2> x',
         lambda: '\\begin{itemize}\\item <1> %s \\item[q] <a> %s\\end{itemize}' % (w(s), w(s)),
         lambda: '\\begin{enumerate}\\item <1> %s\\end{enumerate}' % w(s),
         lambda: '\\begin{enumerate}[a] \\item %s\\end{enumerate}' % w(s), lambda: '\\begin{itemize}[<+->] \\item %s\\end{itemize}' % w(s),
         lambda: '\\begin{description}[x] \\item[q] %s\\end{description}' % w(s),
         lambda: '\\begin{quote}<1> %s\\end{quote}' % w(s), lambda: '\\begin{verse}[2cm] %s\\end{verse}' % w(s),
         lambda: '\\begin{quotation}<2> %s\\end{quotation}' % w(s), lambda: '\\footnote{%s}' % w(s), lambda: '\\footnote[3]{%s}' % w(s),
         lambda: '\\footnotetext[2]{%s}' % w(s), lambda: '\\tableofcontents[x] %s' % w(s),
         lambda: '\\section{S}\\label{l1} \\ref{l1} \\pageref{l1}', lambda: '\\section{S}\\label{l2} \\ref*{l2}',
         lambda: '\\newcommand<x>{\\qq}[1]{%s#1}' % w(s) if cls == 'beamer' else '\\newcommand{\\qq}[1]{%s#1}\\qq z' % w(s),
         lambda: '\\newenvironment{qe}{(}{)}\\begin{qe}%s\\end{qe}' % w(s), lambda: '\\label{l3}<1>', lambda: '\\section <1> x',
         lambda: '\\begin{center}%s\\end{center}' % w(s), lambda: '\\caption{%s}' % w(s) if 0 else '\\begin{figure}%s\\caption{%s}\\end{figure}' % (w(s), w(s)),
         lambda: '\\mbox{%s $a$}' % w(s), lambda: '\\begin{abstract}%s\\end{abstract}' % w(s)]
    return s.choice(o)()


def index(s):
    return s.choice(['\\index{%s}%s', '\\index{%s!%s}', '%s\\index{%s@x}'])  % (w(s), w(s)) + \
        s.choice(['', '\\printindex', '\\begin{theindex}\\item a\\end{theindex}'])


def bib(s):
    return s.choice(['\\begin{thebibliography}{9}\\bibitem{k1} %s\\bibitem[L]{k2} %s\\end{thebibliography}\\cite{k1}',
                     '\\cite{k2}\\begin{thebibliography}{9}\\bibitem <a> %s\\bibitem{k2} %s\\end{thebibliography}',
                     '\\bibliography{nofile}%s%s', '\\bibliographystyle{plain}%s \\cite{zz}%s']) % (w(s), w(s))


def lists(s, depth=0):
    n = s.choice(['itemize', 'enumerate', 'description', 'enumerate', 'trivlist'])
    out = '\\begin{%s}' % n
    for _ in range(s.int(1, 2)):
        out += '\\item%s %s ' % (s.choice(['', '', '[x]']), w(s))
        if depth < 3 and s.bool(1, 3):
            out += lists(s, depth + 1)
    return out + '\\end{%s}' % n


def math(s):
    return s.choice(['$a_1^2$', '$$x+y$$', '\\(a\\)', '\\[b\\]', '\\begin{equation}E=\\mbox{x $y$}\\end{equation}',
                     '\\hbox{u $v$ w}', '\\begin{eqnarray}a&=&b\\\\c&=&d\\end{eqnarray}', '\\begin{math}q\\end{math}', '$\\hbox{$x$}$',
                     '\\ensuremath{z^2}', 'a^b c_d', '\\begin{displaymath}\\frac{1}{2}\\end{displaymath}', '$a<b$', '\\vbox{$$k$$}',
                     '$\\begin{array}{cc}1&2\\\\3&4\\end{array}$', '\\mbox{a}$\\mbox{$b$}$'])


def tab(s):
    spec = ''.join(s.choice(['l', 'c', 'r', '|', 'p{2cm}', '@{;}', '>{x}c', '*{2}{c}']) for _ in range(s.int(1, 3))) + 'l'
    n = s.choice(['tabular', 'tabular', 'array'])
    body = '\\begin{%s}{%s}%s&%s\\\\\\hline %s&\\multicolumn{1}{r}{%s}\\end{%s}' % (n, spec, w(s), w(s), w(s), w(s), n)
    return '$%s$' % body if n == 'array' else body


def ifthen(s):
    c = s.choice(['\\equal{a}{%s}' % s.choice('ab'), '%d<%d' % (s.int(0, 9), s.int(0, 9)), '\\isodd{%d}' % s.int(0, 9),
                  '\\lengthtest{%s>%s}' % (dim(s), dim(s)), '\\not\\equal{$x$}{y}', '\\(1<2\\)\\and\\isodd{3}', '\\boolean{qb}',
                  '\\lengthtest{\\parindent>%s}' % dim(s)])
    pre = '\\newboolean{qb}\\setboolean{qb}{true}' if 'boolean' in c else ''
    t = '\\ifthenelse{%s}{%s}{%s}' % (c, w(s), w(s))
    return pre + s.choice(['%s', '$%s$', '\\whiledo{1>2}{x}%s']) % t


def columns(s):
    return s.choice(['\\newcolumntype{Q}{>{\\bf}c}\\begin{tabular}{lc}a&b\\end{tabular}',
                     '\\begin{tabular}{>{\\bf}l@{--}r}a&b\\end{tabular}', '\\begin{tabular}{l<{x}|p{3cm}}a&b\\end{tabular}',
                     '\\def\\tt{l}\\begin{tabular}{*{3}{|c}}a&b&c\\end{tabular}'])


def misc(s):
    return s.choice(['\\catcode`\\@=11 \\def\\a@b{x}\\a@b ', '\\makeatletter\\def\\x@y{1}\\x@y\\makeatother ', '\\verb|a%b|',
                     '\\begin{verbatim}x{$\\end{verbatim}', '\\newcounter{qc}\\stepcounter{qc}\\theqc ', '\\addtocounter{section}{3}',
                     '\\setcounter{enumi}{4}', '\\appendix\\section{Z}', '\\newtheorem{qt}{Thm}\\begin{qt}%s\\end{qt}' % w(s),
                     '\\renewcommand{\\thesection}{\\Roman{section}}\\section{R}', '\\def\\textbf#1{<#1>}\\textbf{x}',
                     '\\let\\emph\\textbf \\emph{x}', '\\obeylines a\nb', '\\tiny x {\\Large y}', '\\section*{U}', "``q'' -- r",
                     '\\part{P}', '\\title{T}\\author{A}\\maketitle ', '\\renewcommand{\\figurename}{Fg}\\begin{figure}\\caption{c}\\end{figure}',
                     '\\catcode`\\!=13 \\def!{ex}! ', '\\begingroup\\lccode`A=`b \\lowercase{A}\\endgroup ', '\\uppercase{ab}',
                     '\\chardef\\qd=65 \\qd', '\\expandafter\\def\\csname q r\\endcsname{1}', '\\minipage{2cm}x\\endminipage ',
                     '\\newsavebox{\\qs}\\sbox{\\qs}{x}\\usebox{\\qs}', '\\tableofcontents ', '\\listoffigures ', '\\parbox{2cm}{\\item x}',
                     '\\footnotemark \\footnotetext{x}', '\\marginpar{x}', '\\subsection{s}\\paragraph{p}', '\\renewcommand{\\labelitemi}{+}',
                     '\\fbox{x}\\framebox[2cm]{y}', '\\color{red}x', '\\definecolor{qx}{rgb}{1,0,0}', '\\author{x}\\date{y}',
                     '\\numberwithin{equation}{section}', '\\DeclareMathOperator{\\qo}{q}$\\qo$', '\\theoremstyle{definition}', '\\url{http://a_b}',
                     '\\selectlanguage{french}\\chapter{x}', '\\setlipsumdefault{2}' if 0 else '\\lipsum[1]', '\\newlist', '\\pagestyle{empty}',
                     '\\includegraphics{nofile}', '\\input{nofile}', '\\lstset{language=C}', '\\bibpunct{(}{)}{,}{a}{}{;}',
                     '\\hypersetup{a=b}', '\\crefname{section}{Q}{Qs}', '\\DefineShortVerb{\\|}|x_|', '\\MakeShortVerb{\\|}|x_|'])


OPENS = {
    'openmath': ['$a', '$$b', '\\(c', '\\[d', '\\begin{equation}e', '\\begin{math}f', '\\begin{eqnarray}a&b', '$x\\mbox{y}', '$\\begin{array}{c}a'],
    'openlist': ['\\begin{itemize}\\item a', '\\begin{enumerate}\\item a\\begin{enumerate}\\item b', '\\begin{description}\\item[x]',
                 '\\begin{itemize}', '\\begin{trivlist}\\item x', '\\begin{thebibliography}{9}\\bibitem{a}'],
    'openbox': ['\\hbox{$a', '\\vbox{', '\\mbox{$', '\\hbox{\\hbox{a}', '\\hbox{x', '\\fbox{a', '\\parbox{2cm}{'],
    'opengroup': ['{a', '{\\parindent=7pt\\relax ', '\\bgroup x', '\\begingroup y', '\\begin{center}z', '{\\catcode`\\$=12 ', '\\begin{verbatim}a'],
    'openif': ['\\iftrue a', '\\iffalse b', '\\ifnum1<2 c', '\\ifcase1 a\\or b', '\\ifx ab c\\else d'],
    'opentab': ['\\begin{tabular}{cc}a&b', '\\begin{tabular}{l}\\multicolumn{1}{c}{x', '\\begin{array}{c}a', '\\begin{tabular}{c@{$}c}a',
                '\\begin{figure}x', '\\begin{tabbing}a\\=b'],
    'openarg': ['\\textbf{', '\\section{a', '\\section', '\\footnote[', '\\newcommand{\\x}', '\\def\\q#1', '\\parindent=', '\\tolerance=1', '\\frac',
                '\\setlength{\\parindent}', '\\ifthenelse{\\equal{a}', '\\item', '\\verb|a', '\\ifnum 1', '\\newcount', '\\hsize',
                '\\baselineskip=1pt plus', '\\catcode`', '\\begin', '\\begin{tabular}', '\\let\\x', '\\advance\\parindent', '\\the', '\\cite{'],
}


def doc(s, role, cls=None, tier='quick'):
    """[source, tags]"""
    tags = []
    plain = s.bool(1, 6)
    cls = cls or s.weighted([(5, 'article'), (3, 'book'), (2, 'report'), (2, 'amsart'), (1, 'amsbook'), (3, 'beamer'), (1, 'memoir'), (1, 'jss')])
    pkgs = []
    if not plain:
        pkgs = s.sample(PACKAGES, s.weighted([(3, 0), (4, 1), (3, 2), (2, 3), (1, 4)]))
        if role == 'a' and s.bool(1, 3):
            pkgs += [x for x in s.sample(['natbib', 'hyperref', 'verse', 'ifthen', 'amsmath', 'longtable', 'babel', 'xcolor'], s.int(1, 2)) if x not in pkgs]
        if 'ifthen' not in pkgs and s.bool(1, 5):
            pkgs.append('ifthen')
    out = []
    if s.bool(1, 8):
        out.append(register(s) if role == 'a' else the(s))
    if not plain:
        out.append('\\documentclass%s{%s}\n' % (s.choice(['', '', '[12pt]', '[draft,twocolumn]', '[french]']), cls))
        for p in pkgs:
            o = s.choice(['', ''] + OPTIONS.get(p, ['draft']))
            out.append('\\usepackage%s{%s}\n' % ('[%s]' % o if o else '', p))
        tags.append('class')
        if pkgs:
            tags.append('package')
    begin = not plain and s.bool(7, 8)
    for _ in range(s.int(0, 2)):
        out.append(register(s) if role == 'a' else misc(s) if s.bool(1, 4) else the(s))
    if role == 'a' and any('=' in x for x in out[-2:]):
        tags.append('register')
    if begin:
        out.append('\\begin{document}\n')
    if cls == 'beamer' and s.bool():
        out.append('\\begin{frame}<1>{T} %s \\end{frame}\n' % w(s))
    kinds = [(3, 'args'), (2, 'lists'), (2, 'math'), (2, 'tab'), (1, 'columns'), (2, 'ifthen') if 'ifthen' in pkgs else (0, 'ifthen'),
             (1, 'index'), (1, 'bib'), (4, 'misc'), (3, 'register' if role == 'a' else 'the'), (1, 'text'), (1, 'sect')]
    for _ in range(s.weighted([(1, 0), (3, s.int(1, 3)), (3, s.int(3, 6)), (1, s.int(6, 10))])):
        k = s.weighted([x for x in kinds if x[0]])
        tags.append(k)
        if k == 'text':
            out.append(s.choice(['%s %s', '%s--%s', "``%s'' %s", "%s's %s---"]) % (w(s), w(s)))
        elif k == 'sect':
            out.append(s.choice(['\\section{%s}', '\\chapter{%s}', '\\subsection{%s}', '\\section*{%s}']) % w(s))
        elif k == 'args':
            out.append(args(s, cls, pkgs))
        else:
            out.append({'lists': lists, 'math': math, 'tab': tab, 'columns': columns, 'ifthen': ifthen, 'index': index, 'bib': bib,
                        'misc': misc, 'register': register, 'the': the}[k](s))
        out.append(s.choice(['\n', '\n\n', ' ']))
    if role == 'a' and s.bool(2, 5):
        for _ in range(s.weighted([(3, 1), (1, 2)])):
            k = s.choice(sorted(OPENS))
            tags.append(k)
            out.append(s.choice(OPENS[k]))
    elif begin:
        out.append('\\end{document}\n')
    how = s.weighted([(12 if role == 'a' else 8, 'parse'), (2, 'HTML5'), (1, 'XHTML'), (1, s.choice(['Text', 'DocBook', 'ManPage', 'HTML5']))])
    opts = options(s) if s.bool(1, 3) else []
    if opts:
        tags.append('config')
    return {'src': ''.join(out), 'opts': opts, 'tags': sorted(set(tags)), 'cls': None if plain else cls, 'pkgs': pkgs, 'how': how,
            'theme': s.choice(['default', 'minimal']) if how == 'HTML5' else 'default', 'split': s.choice([2, 2, 0, -10, 4])}


CONFIG = [['document', 'disable-charsub', [['--'], ['``', "''"], ['---', '`', "'"]]], ['document', 'toc-depth', [0, 1, 9]],
          ['document', 'toc-non-files', [True]], ['document', 'sec-num-depth', [-1, 0, 6]], ['document', 'index-columns', [1, 4]],
          ['document', 'base-url', ['http://x.org/d']], ['document', 'title', ['Own title']], ['general', 'load-tex-packages', [False]],
          ['files', 'filename', ['index [$id, $title(3), f$num]', 'a [$num(2)]']], ['files', 'bad-chars-sub', ['_']],
          ['files', 'escape-high-chars', [True]], ['files', 'output-encoding', ['ascii']],
          ['html5', 'display-toc', [False]], ['html5', 'localtoc-level', [1]], ['html5', 'breadcrumbs-level', [0]], ['html5', 'use-mathjax', [False]],
          ['html5', 'extra-css', [['x.css']]], ['html5', 'use-theme-css', [False]], ['html5', 'mathjax-dollars', [True]]]


def options(s):
    out = []
    for sec, key, values in s.sample(CONFIG, s.int(1, 4)):
        out.append([sec, key, s.choice(values)])
    return out


def gen(s, tier):
    n = s.weighted([(4, 1), (3, 2), (2, 3), (2, 4)])
    b = doc(s, 'b')
    case = {'a': [doc(s, 'a') for _ in range(n)], 'b': b, 'fresh': 0, 'pre': s.bool()}
    if s.bool(1, 5):
        # a related document: the same class and packages, the same text with other registers
        case['a'][-1] = dict(doc(s, 'a', cls=b['cls']))
    if s.bool(1, 40):
        case['fresh'] = s.int(1, 1000)
    return case


ALL = [r"""\textbf <x> \textit<1>{a} \textsl <2> x \textrm <b> \textsf <c> \emph <d>
\begin{itemize}\item <1> a \item[q] <b> c\end{itemize}\begin{enumerate}[a] \item <2> x\end{enumerate}
\begin{description}[x] \item[q] y\end{description}\begin{itemize}[<+->] \item z\end{itemize}
\begin{quote}<1> a\end{quote}\begin{verse}[2cm] b\end{verse}\begin{quotation}<2> c\end{quotation}
\footnote[3]{f}\footnotetext[2]{g} \section{S}\label{l1} \ref*{l1} \ref{l1}\pageref*{l1}\pageref{l1}
\begin{figure}a\caption[b]{c}\end{figure}\begin{table}a\caption{c}\end{table}\begin{abstract}<1> z\end{abstract}
\begin{center}x\end{center}\begin{minipage}[t]{2cm}x\end{minipage}\parbox[b]{2cm}{y}\mbox{a $b$}\fbox{c}
\part <1> x \section <1> x \subsection <2> y \paragraph{p} q""",
       r"""\begin{equation}a\label{e}\end{equation}\begin{eqnarray}a&=&b\\c&=&d\end{eqnarray}$$x$$ \[y\] \(z\) $\hbox{$q$}\mbox{r}$
$\begin{array}{c|c}1&2\\3&4\end{array}$ a^b c_d \begin{tabular}{l|c@{;}r}1&2&3\\\hline 4&5&6\\\cline{1-2}7&8&9\end{tabular}
\begin{tabular}{*{2}{l}p{2cm}}1&2&3\end{tabular}\begin{tabbing}a\=b\\c\>d\end{tabbing}
\section{T}\subsection{U}\subsubsection{V}\appendix\section{W}
\index{a}\index{b!c}\printindex \begin{theindex}\item a\end{theindex}""",
       r"""\tableofcontents[x] y \begin{thebibliography}{9}\bibitem <a> x\bibitem[L]{k} y\end{thebibliography}\cite{k}\bibliography{nofile}
\begin{verbatim}x{$\end{verbatim} \verb|a%| \newcommand{\qq}[1]{(#1)}\qq{a} \newenvironment{qe}{(}{)}\begin{qe}x\end{qe}
\newtheorem{qt}{Thm}\begin{qt}[n] x\end{qt} \newcounter{qc}\stepcounter{qc}\theqc \newif\ifqz \qztrue \ifqz a\else b\fi
\figurename\ \chaptername\ \indexname\ \refname\ \bibname\ \contentsname\ \abstractname\ \tablename
\ensuremath{a} \'e \"o \ss \ldots \LaTeX{} ``q'' -- --- \url{a} \marginpar{m} \title{T}\author{A}\date{D}\maketitle
{\bf a}\textbf{b}{\Large c}\uppercase{d}\underline{e}\raisebox{1pt}{f}\rule{1pt}{2pt}\hspace{1cm}\vspace*{2cm}\linebreak[3] g"""]


def corpus(tier):
    def d(src, cls=None, pkgs=(), how='parse', tags=()):
        return {'src': src, 'tags': list(tags), 'cls': cls, 'pkgs': list(pkgs), 'how': how, 'theme': 'default', 'split': 2}

    def full(cls, body, pre='', end=True):
        return '\\documentclass{%s}\n%s\\begin{document}\n%s\n%s' % (cls, pre, body, '\\end{document}\n' if end else '')
    regs = [DIMENS, GLUES, COUNTS, MUGLUES]
    assign = ' '.join('\\%s=%s\\relax' % (r, v) for rs, v in zip(regs, ['3pt', '4pt plus 5pt minus 6pt', '77', '8mu plus 9mu']) for r in rs)
    read = ' '.join('\\the\\%s;' % r for rs in regs for r in rs)
    out = []
    for pre in (False, True):
        out.append({'a': [d(full('article', assign), 'article', tags=['register'])], 'b': d(full('article', read), 'article', tags=['the']),
                    'fresh': 0, 'pre': pre})
        for i, body in enumerate(ALL):
            for c in CLASSES:
                b = ['article', 'book', 'report'][(i + len(c) + pre) % 3]
                out.append({'a': [d(full(c, 'x'), c)], 'b': d(full(b, body), b, how=['parse', 'HTML5'][pre]), 'fresh': 0, 'pre': pre})
            out.append({'a': [d(full('article', body), 'article')], 'b': d(full('book', body), 'book'), 'fresh': 0, 'pre': pre})
    for i, p in enumerate(PACKAGES):
        use = '\\usepackage{%s}\n' % p
        # what packages change, and what their options and macros change
        out.append({'a': [d(full('article', 'x', use), 'article', [p])], 'b': d(full(['article', 'book'][i % 2], ALL[i % 3]), None),
                    'fresh': 0, 'pre': bool(i & 1)})
        out.append({'a': [d(full('book', ALL[(i + 1) % 3], '\\usepackage[%s]{%s}\n' % (OPTIONS.get(p, ['draft'])[0], p)), 'book', [p])],
                    'b': d(full('article', ALL[(i + 2) % 3], use), 'article', [p]), 'fresh': 0, 'pre': bool(i & 2)})
    for k in sorted(OPENS):
        for i, x in enumerate(OPENS[k]):
            out.append({'a': [d(full('article', x, end=False), 'article', tags=[k])], 'b': d(full('article', ALL[i % 3]), 'article'),
                        'fresh': 0, 'pre': False})
            out.append({'a': [d(x, tags=[k])], 'b': d(['a $x$ b $$y$$ \\mbox{$z$}', '\\begin{enumerate}\\item x\\end{enumerate}',
                                                       '\\the\\parindent \\parindent=2pt\\relax \\the\\parindent'][i % 3]), 'fresh': 0, 'pre': False})
    return out


def show(case):
    return '\n'.join('--- A%d (%s)\n%s' % (i + 1, d['how'], d['src']) for i, d in enumerate(case['a'])) + '\n--- B (%s)\n%s' % (case['b']['how'], case['b']['src'])


def setup(tier):
    """Modules that are not part of plasTeX need not be loaded again by every child"""
    for m in ['jinja2', 'jinja2.ext', 'PIL.Image', 'PIL.ImageChops', 'xml.dom.minidom', 'xml.parsers.expat', 'html', 'html.parser', 'difflib',
              'subprocess', 'hashlib', 'concurrent.futures', 'urllib.parse', 'shelve', 'optparse', 'textwrap', 'unicodedata', 'zipfile',
              'cgi', 'bdb', 'doctest', 'asyncio']:
        try:
            __import__(m)
        except ImportError:
            pass


# -- execution (in children) --------------------------------------------------------------------------------------

GENID = re.compile(r'\ba\d{10}\b')


def canonical(texts):
    names = {}

    def sub(m):
        return names.setdefault(m.group(0), 'ID%d' % len(names))
    return [GENID.sub(sub, t) for t in texts]


def process(d):
    """Process one document; returns ['ok', [text...]] or ['exc', message]"""
    from . import render
    try:
        if d['how'] == 'parse':
            tree = render.parse(d['src'], render.configuration(options=[x for x in d.get('opts', []) if x[0] != 'html5']))
            return ['ok', canonical([tree.toXML()])]
        opts = [('files', 'split-level', d['split'])] + [x for x in d.get('opts', []) if x[0] != 'html5' or d['how'] == 'HTML5']
        tree, files = render.render(d['src'], renderer=d['how'], theme=d['theme'], options=opts)
        names = sorted(files)
        texts = [tree.toXML()]
        for n in names:
            texts += [n, files[n]]
        return ['ok', canonical(texts)]
    except Exception as e:
        return ['exc', '%s: %s' % (type(e).__name__, str(e)[:200])]


SIMPLE = (int, float, str, bool, type(None))
LISTED = {'inEnv', 'depth', 'disableMath', 'enabled', '_enablelevel', 'columnTypes', 'value'}


def simple(v, depth=0):
    """A comparable form of settings, None for other values"""
    if isinstance(v, SIMPLE):
        return repr([type(v).__name__, v, getattr(v, 'stretch', None), getattr(v, 'shrink', None)])
    if isinstance(v, (list, tuple, set, frozenset)) and depth < 3:
        x = [simple(i, depth + 1) or '?' for i in v]
        return repr([type(v).__name__, sorted(x) if isinstance(v, (set, frozenset)) else x])
    if isinstance(v, dict) and depth < 3:
        return repr(sorted('%s=%s' % (simple(k, depth + 1), simple(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, type):
        return '<class %s>' % v.__qualname__
    return None


class Module(object):
    """The variables of a module"""

    def __init__(self, name):
        self.__module__ = self.__qualname__ = name
        self.__mro__ = (self,)

    def __hash__(self):
        return hash(self.__module__)

    def __eq__(self, other):
        return isinstance(other, Module) and self.__module__ == other.__module__


def classes():
    """Classes of nodes, classes in modules of plasTeX, modules"""
    from plasTeX.DOM import Node
    seen = {}
    todo = [Node]
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen[c] = own(c)
        todo += c.__subclasses__()
    for name, m in list(sys.modules.items()):
        if m is None or not (name + '.').startswith('plasTeX.') or name == 'plasTeX.Logging':
            continue
        for c in list(vars(m).values()):
            if isinstance(c, type) and c not in seen and c.__module__.startswith('plasTeX') and c.__module__ != 'plasTeX.Logging':
                seen[c] = own(c)
        seen[Module(name)] = own(m)
    return seen


def own(c):
    out = {}
    for k, v in list(vars(c).items()):
        if k.startswith('@') or (k.startswith('_') and k not in LISTED) or (isinstance(v, type) and isinstance(c, Module)):
            continue
        x = simple(v)
        if x is None:
            continue
        out[k] = (x, bool(v) if isinstance(v, (list, dict, set)) else True)
    return out


def snapshot():
    return {c: x for c, x in classes().items() if c.__module__.startswith('plasTeX')}


def compare(s0, s1):
    """Settings that differ"""
    for c, before in s0.items():
        after = s1.get(c)
        if after is None:
            continue
        for k, (x, full) in after.items():
            if k in before:
                b = before[k]
            else:
                b = None
                for p in c.__mro__[1:]:
                    if p in s0 and k in s0[p]:
                        b = s0[p][k]
                        break
                if b is None:
                    if k not in LISTED:
                        continue
                    b = ('nothing', True)
            if x != b[0] and (b[1] or k in LISTED):
                return '%s.%s.%s was %s, is %s' % (c.__module__, c.__qualname__, k, b[0][:150], x[:150])
        for k in before:
            if k not in after:
                for p in c.__mro__[1:]:
                    if k in vars(p):
                        x = simple(vars(p)[k])
                        break
                else:
                    x = 'missing'
                if x != before[k][0]:
                    return '%s.%s.%s was %s, is %s' % (c.__module__, c.__qualname__, k, before[k][0][:150], x)
    return None


def history(case, observe=True):
    """Runs in a child: A1..Ak, B, B"""
    out = {'a': [], 'snap': None, 'nsnap': 0, 'nsettings': 0}
    s0 = snapshot() if observe else None
    if case['pre'] and observe:
        import importlib
        for d in case['a']:
            for m in ([d['cls']] if d['cls'] else []) + d['pkgs']:
                try:
                    importlib.import_module('plasTeX.Packages.' + m)
                except ImportError:
                    pass
        s1 = snapshot()
        out['snap'] = compare(s0, s1)
        if out['snap']:
            out['snap'] = 'loading the modules of the packages changes settings: ' + out['snap']
        s0 = s1

    def look(what):
        nonlocal s0
        if not observe or out['snap']:
            return
        s1 = snapshot()
        out['nsnap'] += 1
        out['nsettings'] += sum(len(x) for x in s1.values())
        d = compare(s0, s1)
        if d:
            out['snap'] = 'after %s: %s' % (what, d)
        for c, x in s1.items():
            # Classes of modules loaded by this document
            if c not in s0 and (isinstance(c, Module) or getattr(sys.modules.get(c.__module__), c.__name__, None) is c):
                s0[c] = x

    for i, d in enumerate(case['a']):
        r = process(d)
        out['a'].append(r if r[0] == 'exc' else ['ok'])
        if r[0] == 'exc':
            return out
        look('A%d' % (i + 1))
    out['b1'] = process(case['b'])
    if out['b1'][0] == 'ok':
        look('B')
        out['b2'] = process(case['b'])
    return out


def alone(case):
    return {'b': process(case['b'])}


def subprocess_main():
    from . import core
    core.quiet_plastex()
    sys.setrecursionlimit(5000)
    mode, case = json.load(sys.stdin)
    res = alone(case) if mode == 'alone' else history(case)
    sys.__stdout__.write('\n' + json.dumps(res))


def interpreter(mode, case, seed):
    from . import core
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=core.VERIF, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-c', 'from mon import c17; c17.subprocess_main()'], input=json.dumps([mode, case]).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, timeout=100)
    try:
        return json.loads(p.stdout.decode().split('\n')[-1])
    except ValueError:
        return None


def difference(x, y):
    for i, (a, b) in enumerate(zip(x, y)):
        if a != b:
            n = next((j for j, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
            return 'part %d: ...%r... / ...%r...' % (i, a[max(0, n - 60):n + 80], b[max(0, n - 60):n + 80])
    return 'number of parts %d / %d' % (len(x), len(y))


def run(case, obs):
    from . import core
    if case['fresh']:
        ra = interpreter('alone', case, case['fresh'])
        rh = interpreter('history', case, case['fresh'] + 1)
        obs.hit('fresh_interpreters', 2)
    else:
        ra = core.in_child(lambda w: alone(case), 60)
        rh = core.in_child(lambda w: history(case), 100)
    for r in (ra, rh):
        if not isinstance(r, dict):
            if r and r[0] == 'harness':
                raise RuntimeError(r[1])
            obs.nontrivial = False
            obs.hit('no_result')
            return None
    for d, r in zip(case['a'], rh['a']):
        if r[0] == 'exc':
            obs.nontrivial = False
            obs.hit('a_exception')
            obs.seen('exceptions', r[1][:60])
            return None
        obs.hit('a_processed')
        if d['how'] != 'parse':
            obs.hit('a_rendered')
        for t in d['tags']:
            obs.hit('a_' + t)
        for p in d['pkgs']:
            obs.seen('packages', p)
        obs.seen('classes', d['cls'])
    if ra['b'][0] == 'exc':
        obs.nontrivial = False
        obs.hit('b_exception')
        obs.seen('exceptions', ra['b'][1][:60])
        return None
    obs.hit('k%d' % len(case['a']))
    obs.hit('same_class' if case['a'][-1]['cls'] == case['b']['cls'] else 'other_class')
    if case['pre']:
        obs.hit('preimported')
    for t in case['b']['tags']:
        obs.hit('b_' + t)
    obs.hit('b_parsed' if case['b']['how'] == 'parse' else 'b_rendered')
    obs.hit('snapshots', rh['nsnap'])
    obs.hit('settings', rh['nsettings'])
    obs.seen('renderers', case['b']['how'])
    if rh['snap']:
        return rh['snap']
    b1 = rh['b1']
    if b1[0] == 'exc':
        return 'B is processed alone but fails after A1..A%d: %s' % (len(case['a']), b1[1])
    if b1[1] != ra['b'][1]:
        return 'B differs when processed after A1..A%d (alone / after): %s' % (len(case['a']), difference(ra['b'][1], b1[1]))
    obs.hit('twice')
    b2 = rh['b2']
    if b2[0] == 'exc' or b2[1] != b1[1]:
        return 'B differs when processed twice: %s' % (b2[1] if b2[0] == 'exc' else difference(b1[1], b2[1]))
    return None
