r"""C12: rendered HTML never turns document text into markup.

A document skeleton with numbered text positions is rendered twice: once with
a plain unique word in every position, once with the same word followed by
hostile characters.  Both outputs are parsed with html.parser.  The stream of
elements, attributes, texts, comments and declarations of the hostile output
has to be the one of the plain output, with the hostile characters (decoded)
following each word in the texts.  A third rendering with escape-high-chars
toggled has to give the same stream, in ASCII bytes when it is on.
"""
import re
from html.parser import HTMLParser

from . import render

ID = 'C12'
RULE = ('the HTML events of a document with hostile text are those of the same document with plain words, '
        'with the hostile characters inside the text nodes')
QUICK = (900, 40)
THOROUGH = (13000, 800)
REQUIRED = ['event', 'word-shown', 'hostile-lt', 'hostile-amp', 'hostile-quote', 'hostile-high', 'escape-toggled',
            'encoding-not-utf8', 'xhtml', 'html5', 'several-files', 'verbatim', 'nested']
ASSUMPTIONS = [
    'html.parser of the standard library stands for the parser of the reader',
    'white space is not compared; runs of quotes or of dashes count as one, whether typographic or not',
    'values of attributes that repeat text of the document (alternative texts, tooltips, URLs) are only compared for '
    'still beginning with the plain word; their number and names are compared exactly',
    'text inside mathematics is left to C11',
]

# ---------------------------------------------------------------- oracle
WS = re.compile(r'\s+')
QUOTES = re.compile('[\u2018\u2019\u201c\u201d\u201e\u201b\'"`]+')
DASHES = re.compile('[-\u2013\u2014\xad]+')
WORD = re.compile('Zq[a-j]{3}w')


def squeeze(text):
    """Text without typographic quotes and dashes"""
    return QUOTES.sub("'", DASHES.sub('-', text))


class Events(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.out = []
        self.depth = 0
        self.spans = []

    def handle_starttag(self, tag, attrs):
        cls = dict(attrs).get('class') or ''
        if tag == 'div' and (self.depth or cls == 'highlight'):
            self.depth += 1
        if self.depth and tag == 'span':
            return              # colours of a listing follow its contents
        self.out.append(('start', tag, tuple(attrs)))

    def handle_startendtag(self, tag, attrs):
        self.out.append(('start', tag, tuple(attrs)))

    def handle_endtag(self, tag):
        if self.depth and tag == 'span':
            return
        if tag == 'div' and self.depth:
            self.depth -= 1
        self.out.append(('end', tag))

    def handle_data(self, data):
        if self.out and self.out[-1][0] == 'text':
            self.out[-1] = ('text', self.out[-1][1] + data)
        else:
            self.out.append(('text', data))

    def handle_comment(self, data):
        self.out.append(('comment', data))

    def handle_decl(self, data):
        self.out.append(('decl', data))

    def handle_pi(self, data):
        self.out.append(('pi', data))

    def unknown_decl(self, data):
        self.out.append(('unknown', data))


def events(text):
    p = Events()
    p.feed(text)
    p.close()
    out = []
    for e in p.out:
        if e[0] == 'text':
            t = WS.sub('', e[1])
            if not t:
                continue
            if out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + t)
            else:
                out.append(('text', t))
        else:
            out.append(e)
    return out


def canonical(files):
    """The HTML files with generated identifiers renamed in order of appearance"""
    names = {}

    def f(m):
        return names.setdefault(m.group(0), 'id%d' % len(names))
    return {k: re.sub(r'\ba\d{10}\b', f, files[k]) for k in sorted(files) if k.endswith('.html')}


def differs(name, plain, hostile, decoded, verbatim=(), same=False):
    """Compare two lists of events"""
    def sub(m):
        return m.group(0) + WS.sub('', decoded.get(m.group(0), '')) + 'Zz'
    for i in range(max(len(plain), len(hostile))):
        a = plain[i] if i < len(plain) else None
        b = hostile[i] if i < len(hostile) else None
        where = '%s, event %d: expected ' % (name, i)
        if a is None or b is None or a[0] != b[0]:
            return where + '%r, found %r' % (a, b)
        if a[0] == 'start':
            if a[1] != b[1] or [k for k, v in a[2]] != [k for k, v in b[2]]:
                return where + 'element %r, found %r' % (a[1:], b[1:])
            for (k, v), (_, w) in zip(a[2], b[2]):
                v, w = v or '', w or ''
                if not same and WORD.search(v):
                    if WORD.search(v).group(0) not in w:
                        return where + 'attribute %s=%r, found %r' % (k, v, w)
                elif v != w:
                    return where + 'attribute %s=%r, found %r' % (k, v, w)
        elif a[0] == 'text' and not same:
            want, found = squeeze(WORD.sub(sub, a[1])), squeeze(b[1])
            if want != found:
                j = next((j for j in range(min(len(want), len(found))) if want[j] != found[j]), min(len(want), len(found)))
                j = max(0, j - 30)
                return where + 'text %r, found %r' % (want[j:j + 80], found[j:j + 80])
            # Verbatim text shows exactly the characters of the source
            for m in WORD.finditer(b[1]):
                if m.group(0) in verbatim:
                    want = WS.sub('', decoded[m.group(0)]) + 'Zz'
                    found = b[1][m.end():m.end() + len(want)]
                    if want != found:
                        return where + 'verbatim text %r, found %r' % (want, found)
        elif a != b:
            return where + '%r, found %r' % (a, b)
    return None


# ---------------------------------------------------------------- hostile text
PHRASES = ['<b>q</b>', '&lt;', '&amp;', '&#60;', '&nbsp;', '&', '<', '>', '"', "'", '<script>alert(1)</script>', '</script>',
           '&q-width;', '&q-height;&px;', '&amp;q-depth;', "<td class='x'>", '<td></td>', '<p> </p>', '<p></p>', '<br>', '<br />',
           '<!-- x -->', '-->', '<![CDATA[x]]>', '<?php x ?>', '<!DOCTYPE x>', '${self}', '${/x}', '{{ x }}', '{% y %}', '$x', '$$',
           '{# z #}', '\xe9', '\u2603', '\U0001d538', '\xdf\xf8', '\u05d0', '\u4e2d\u6587', '\xa7\u2026', 'é"<ü', '</p>', '</body>',
           '</title>', '<img src=x onerror=y>', 'x" onclick="y', "x' y='z", '<a href="#q">', '</a>', '<li>', '</td></tr>', '%3C', '\\',
           'a<b>c', 'p & q', 'x > y', '&&', '<<>>', '&;', '&#x3c;b&#x3e;', '&lt;b&gt;', '<style>', '<textarea>', '</textarea>', '<svg/>',
           '#', '_', '^', '~', 'tal:content', '<metal:block>', '\\(x\\)', '[x]', 'a|b', '\xa0', '--', "''", 'a--b', ';', '=', '*']
LETTERS = list('<>&"\'/=;#!?xy&<>"-\xe9\u2603$%{}')


def phrase(s):
    """A hostile text"""
    if s.bool(3, 4):
        return ''.join(s.choice(PHRASES) for i in range(s.int(1, 2)))
    return ''.join(s.choice(LETTERS) for i in range(s.int(1, 7)))


SPECIAL = {'&': r'\&', '"': '{"}', '#': r'\#', '_': r'\_', '%': r'\%', '{': r'\{', '}': r'\}', '$': r'\$', '-': '{-}',
           '\\': r'\textbackslash{}', '^': r'\textasciicircum{}', '~': r'\textasciitilde{}', "'": "{'}", '`': '{`}', '[': '{[}',
           ']': '{]}', ',': '{,}', '=': '{=}', '|': '{|}', '*': '{*}', '?': '{?}', '!': '{!}', ':': '{:}', ';': ';'}


def tex(kind, text):
    """The source of a text and the characters that it stands for"""
    if kind == 'verb':
        text = text.replace('|', '/').replace('\\', '').replace('^', '')
        return text, text
    if kind == 'lst':
        text = re.sub(r'[|\\^{}$%#]', '', text)
        return text, text
    if kind == 'url':
        text = re.sub(r'[{}\\%#\s^~|$_]', '', text)
        return text, text
    if kind == 'index':
        text = re.sub('[!@|"]', '', text)
    if kind == 'simple':        # becomes part of a counter format
        text = re.sub("[\"'{}$-]", '', text)
    if kind == 'option':        # keys and values
        text = re.sub('[=,]', '', text)
    return ''.join(SPECIAL.get(c, c) for c in text), text


# ---------------------------------------------------------------- skeletons
# Positions are written @ (shown) and @@ (not shown by every renderer);
# KK stands for a key of the slot.
SLOTS = {}


def slot(name, body, pre='', cls='article', kind='text', pk=(), once=''):
    SLOTS[name] = {'body': body, 'pre': pre, 'cls': cls, 'kind': kind, 'pk': list(pk), 'once': once}


slot('para', r'@ u @\par @ \\ @ \linebreak @')
slot('title', r'\maketitle x', pre=r'\title{@@}\author{@@}\date{@@}', once='title')
slot('title-parts', r'\maketitle x', pre=r'\title{@@ @@ \\ @@}\author{@@ \and \emph{@@}}\date{@@}', once='title')
slot('thanks', r'\maketitle x', pre=r'\title{A}\author{B\thanks{@@}}\date{c}', once='title')
slot('section', r'\section{@}x\section*{@}y\subsection{@}z\subsubsection{@}u\paragraph{@}v\subparagraph{@}v ')
slot('sectionlab', r'\section{@}\label{KKa}x\section{@}\label{KKb}y\subsection{@}\label{KKc}z \ref{KKa}')
slot('sectionopt', r'\section[@@]{@}x\subsection[@@]{@}z ')
slot('emphsection', r'\section{\emph{@} b}x\subsection{\texttt{@} @}y ')
slot('mathsection', r'\section{$x$ @ b}x\subsection{@ $y_1$}y ')
slot('toc', r'\tableofcontents\section{@}x\subsection{@}y\section{@}z ')
slot('caption', r'\begin{figure}x\caption{@}\end{figure}\begin{table}y\caption[@@]{@}\end{table}\begin{figure}z\caption*{@}\end{figure}')
slot('lists-of', r'\listoffigures\listoftables\begin{figure}x\caption{@}\end{figure}\begin{table}y\caption[@@]{@}\end{table}')
slot('footnote', r'a\footnote{@}b\footnotemark\footnotetext{@}c\footnote{@ \emph{@}}')
slot('items', r'\begin{itemize}\item @ \item[@@] @\end{itemize}\begin{enumerate}\item @\item[@@] @\end{enumerate}\begin{description}\item[@] @\end{description}')
slot('list', r'\begin{list}{@@}{}\item @ \item[@@] u\end{list}\begin{trivlist}\item[@@] @\end{trivlist}')
slot('tabular', r'\begin{tabular}{l|c}@&@\\\hline\multicolumn{2}{c}{@}\\\end{tabular}')
slot('tabular-p', r'\begin{tabular}[t]{@{}p{3cm}r@{}}@&\\ &@\\ {@} & \textbf{@}\end{tabular}'.replace('@{}', '\0'))
slot('tabular-sep', r'\begin{tabular}{l>{\bf}c<{x}}@&@\\ @&\end{tabular}')
slot('tabularx', r'\begin{tabularx}{3cm}{lX}@&@\\ @&u\end{tabularx}', pk=['tabularx'])
slot('longtable', r'\begin{longtable}{ll}\caption{@}\\@&@\endhead @&@\\ \end{longtable}', pk=['longtable'])
slot('booktabs', r'\begin{tabular}{ll}\toprule @&@\\\midrule @&u\\\bottomrule\end{tabular}', pk=['booktabs'])
slot('verb', r'\verb|@| and \verb*|@| ', kind='verb')
slot('verbatim', '\\begin{verbatim}\n@\n@\n\\end{verbatim}\nx\\begin{verbatim*}\n@\n\\end{verbatim*}\n', kind='verb')
slot('lst', '\\begin{lstlisting}\n@\n@\n\\end{lstlisting}\n', kind='verb', pk=['listings'])
slot('lstcap', '\\begin{lstlisting}[caption={@}]\nabc\n\\end{lstlisting}\n', kind='option', pk=['listings'])
slot('lstlang', '\\begin{lstlisting}[language=Python]\n@\n\\end{lstlisting}\n', kind='verb', pk=['listings'])
slot('lstinline', '\\lstinline|@| u', kind='lst', pk=['listings'])
slot('alltt', '\\begin{alltt}\n@\n\\end{alltt}\n', pk=['alltt'])
slot('comment', '\\begin{comment}\n@@\n\\end{comment}\nx', kind='verb', pk=['comment'])
slot('url', r'\url{@}', kind='url', pk=['url'])
slot('hurl', r'\url{@}\nolinkurl{@}', kind='url', pk=['hyperref'])
slot('href', r'\href{http://x/}{@}', pk=['hyperref'])
slot('hrefurl', r'\href{http://@@}{x}', kind='url', pk=['hyperref'])
slot('hyperref', r'\section{A}\label{KKa}\hyperref[KKa]{@}\autoref{KKa}\nameref{KKa}', pk=['hyperref', 'nameref'])
slot('hypertarget', r'\hypertarget{KKaa}{@}\hyperlink{KKaa}{@}', pk=['hyperref'])
slot('nameref', r'\section{@}\label{KKa}x\nameref{KKa}\autoref{KKa}', pk=['hyperref', 'nameref'])
slot('texorpdf', r'\section{\texorpdfstring{@@}{u}}x\section{C}', pk=['hyperref'])
slot('form', r'\begin{Form}\TextField{@}\CheckBox{@}\Submit{@@}\PushButton{@@}\Reset{@@}\end{Form}', pk=['hyperref'])
slot('choice', r'\begin{Form}\ChoiceMenu{@}{a,@}\TextField[name={@@}]{u}\end{Form}', pk=['hyperref'], kind='option')
slot('bib', r'\cite{KKk} \cite[@]{KKl}\begin{thebibliography}{9}\bibitem{KKk} @\bibitem[@]{KKl} @\end{thebibliography}', once='bib')
slot('natbib', r'\citet{KKk} \citep[@@][@@]{KKl}\citeauthor{KKl}\begin{thebibliography}{9}\bibitem[Foo(2000)]{KKk} @\bibitem[@@(1999)]{KKl} @\end{thebibliography}',
     pk=['natbib'], once='bib')
slot('index', r'\section{A}x\index{a@@}y\index{b@@!c@@}\index{k\0@@}\index{e@@|see{f@@}}\printindex', kind='index', once='index', pk=['makeidx'])
slot('glossary-index', r'\section{@}x\index{a}\index{b!c}\printindex', once='index', pk=['makeidx'])
slot('boxes', r'\mbox{@}\fbox{@}\makebox[1cm]{@}\framebox[1cm]{@}\parbox{2cm}{@}\begin{minipage}{3cm}@\end{minipage}\raisebox{1pt}{@@}')
slot('thm', r'\newtheorem{KKfoo}{@@}\begin{KKfoo}[@@]@\end{KKfoo}')
slot('amsthm', r'\newtheorem{KKfoo}{@@}\begin{KKfoo}[@@]@\end{KKfoo}\begin{proof}[@@]@\end{proof}', pk=['amsthm'])
slot('amsthm-star', r'\begin{KKfoo}@\end{KKfoo}', pre=r'\newtheorem*{KKfoo}{@@}', pk=['amsthm'])
slot('quote', r'\begin{quote}@\end{quote}\begin{quotation}@\end{quotation}\begin{verse}@\end{verse}\begin{center}@\end{center}\begin{flushleft}@\end{flushleft}')
slot('fonts', r'\textbf{@}\emph{@}{\itshape @}{\small @}\texttt{@}\textsc{@}{\Large @}\textsuperscript{@}\underbar{@}\textnormal{@}{\em @}{\bf @}')
slot('fonts2', r'\textit{@}\textsf{@}\textsl{@}\textup{@}\textmd{@}\textrm{@}{\huge @}{\tiny @}{\sc @}{\tt @}{\sl @}{\sf @}\textsubscript{@}')
slot('marginpar', r'x\marginpar{@}y\marginpar[@@]{@}')
slot('abstract', r'\begin{abstract}@\end{abstract}x', once='abstract')
slot('appendix', r'\appendix\section{@}u ')
slot('tabbing', r'\begin{tabbing}@@\=@@\\u\>@@\end{tabbing}')
slot('pict', r'\begin{picture}(1,1)\put(0,0){@@}\end{picture}')
slot('graphics', r'\rotatebox{90}{@@}\scalebox{2}{@@}\reflectbox{@@}\includegraphics[width=1cm]{u}', pk=['graphicx'])
slot('subfig', r'\begin{figure}\subfloat[@]{@}\caption{@}\end{figure}', pk=['subfig'])
slot('wrapfig', r'\begin{wrapfigure}{r}{3cm}@\caption{@}\end{wrapfigure}', pk=['wrapfig'])
slot('float', r'\newfloat{KKprog}{t}{lop}\floatname{KKprog}{@@}\begin{KKprog}@\caption{@}\end{KKprog}', pk=['float'])
slot('color', r'\textcolor{red}{@}\colorbox{red}{@}{\color{blue}@}', pk=['color'])
slot('fancybox', r'\ovalbox{@}\shadowbox{@}\doublebox{@}\Ovalbox{@}', pk=['fancybox'])
slot('changebar', r'\begin{changebar}@\end{changebar}', pk=['changebar'])
slot('babel', r'\foreignlanguage{french}{@}\begin{otherlanguage}{french}@\end{otherlanguage}', pk=['babel'])
slot('ifthen', r'\ifthenelse{1<2}{@}{u}\ifthenelse{1>2}{v}{@}', pk=['ifthen'])
slot('names', r'\renewcommand\contentsname{@@}\renewcommand\figurename{@@}\renewcommand\abstractname{@@}\tableofcontents\begin{figure}\caption{u}\end{figure}', once='names')
slot('proofname', r'\renewcommand\proofname{@@}\begin{proof}v\end{proof}\renewcommand\bibname{@@}\renewcommand\refname{@@}', pk=['amsthm'], once='names')
slot('thesection', r'\renewcommand\thesection{@@\arabic{section}}\section{A}\label{KKa}x\subsection{B}y\ref{KKa}\section{C}u ', kind='simple')
slot('thefigure', r'\renewcommand\thefigure{@@\arabic{figure}}\begin{figure}x\caption{y}\label{KKa}\end{figure}\ref{KKa}', kind='simple')
slot('thefootnote', r'\renewcommand\thefootnote{@@\arabic{footnote}}x\footnote{a}', kind='simple')
slot('theequation', r'\renewcommand\theequation{@@\arabic{equation}}\begin{equation}x\label{KKa}\end{equation}\ref{KKa}\eqref{KKa}', kind='simple', pk=['amsmath'])
slot('cref', r'\crefname{section}{@@}{@@s}\section{A}\label{KKa}u\cref{KKa}\Cref{KKa}', pk=['cleveref'])
slot('accent', r"\'{e}@\^o@\c{c}@")
slot('defs', r'\newcommand\KKfoo[2][@]{(#1#2)}\KKfoo{@}\KKfoo[@]{u}\def\KKbaz#1.{#1}\KKbaz @.')
slot('newenv', r'\newenvironment{KKfoo}[1]{[#1]}{@}\begin{KKfoo}{@}@\end{KKfoo}')
slot('sloppypar', r'\begin{sloppypar}@\end{sloppypar}\begin{raggedright}@\end{raggedright}')
slot('symbols', r'\textquotedbl u \textless\textgreater\textbar\textbackslash @ \S @ \copyright\ @ \dots @')
slot('beside-math', r'@ $x<y$ @ \[ a & b \] @'.replace('&', '+'))
slot('chapter', r'\part{@}\chapter{@}x\chapter{@}y', cls='book')
slot('chaptersplit', r'\tableofcontents\chapter{@}x\chapter{@}\label{KKa}y\section{@}\label{KKu}z\ref{KKa}', cls='book')
slot('minitoc', r'\dominitoc\tableofcontents\chapter{@}\minitoc u\section{@}v', cls='book', pk=['minitoc'])
slot('report', r'\begin{abstract}@\end{abstract}\chapter{@}\section{@}u', cls='report', pre=r'\title{@@}', once='title')
slot('memoir', r'\chapter[@@][@@]{@}u\section{@}', cls='memoir')
slot('beamer', r'\begin{frame}{@@}{@@}@\begin{block}{@@}@\end{block}\end{frame}', cls='beamer')
slot('unknown', r'\begin{keyenv}@\end{keyenv}\unknowncommand{@}u ')
slot('html', r'\htmladdnormallink{@}{http://x}\begin{htmlonly}@\end{htmlonly}', pk=['html'])
slot('fancyvrb', '\\begin{Verbatim}\n@\n@\n\\end{Verbatim}\n', kind='verb', pk=['fancyvrb'])
slot('verbatimpkg', '\\begin{verbatim}\n@\n\\end{verbatim}\n', kind='verb', pk=['verbatim'])
slot('verse', r'\begin{verse}@ \\ @\end{verse}\poemtitle{@@}', pk=['verse'])
slot('marginnote', r'x\marginnote{@@}y', pk=['marginnote'])
slot('multicol', r'\begin{multicols}{2}@\end{multicols}', pk=['multicol'])
slot('rotating', r'\begin{sidewaystable}@\caption{@}\end{sidewaystable}\begin{turn}{90}@@\end{turn}', pk=['rotating'])
slot('subfigure', r'\begin{figure}\subfigure[@@]{@@}\caption{@}\end{figure}', pk=['subfigure'])
slot('tabulary', r'\begin{tabulary}{3cm}{LC}@&@\\ @&u\end{tabulary}', pk=['tabulary'])
slot('todonotes', r'x\todo{@@}y\todo[inline]{@@}', pk=['todonotes'])
slot('xcolor', r'\textcolor{red}{@}\colorbox{red}{@}\fcolorbox{red}{blue}{@}', pk=['xcolor'])
slot('captionpkg', r'\begin{figure}x\caption*{@}\captionof{table}{@@}\end{figure}', pk=['caption'])
slot('enumerate', r'\begin{enumerate}[(a)]\item @\item[@@] @\end{enumerate}', pk=['enumerate'])
slot('quotchap', r'\begin{savequote}@@\qauthor{@@}\end{savequote}\chapter{@}u ', cls='book', pk=['quotchap'])
slot('amsart', r'\maketitle\section{@}x', cls='amsart', pre=r'\title[@@]{@@}\author{@@}\address{@@}\email{@@}\subjclass{@@}\keywords{@@}\dedicatory{@@}', once='title')
slot('memoir2', r'\chapter{@}\section[@@]{@}x\titleref{a}\begin{figure}u\legend{@@}\end{figure}\footnote{@}', cls='memoir')
slot('picture-text', r'\begin{picture}(1,1)\put(0,0){\makebox(0,0){@@}}\end{picture}u')
slot('amscd', r'\begin{theorem}@\end{theorem}', pre=r'\newtheorem{theorem}{@@}[section]', once='newtheorem')
slot('thm-style', r'\theoremstyle{definition}\newtheorem{KKfoo}{@@}\begin{KKfoo}[@@]@\end{KKfoo}\begin{KKfoo}\label{KKl}@\end{KKfoo}\ref{KKl}', pk=['amsthm'])
slot('ref-items', r'\begin{enumerate}\item\label{KKa} @\item @\ref{KKa}\end{enumerate}x\pageref{KKa}')
slot('nested-items', r'\begin{enumerate}\item @\begin{itemize}\item[@@] @\begin{description}\item[@] @\end{description}\end{itemize}\end{enumerate}')
slot('theenum', r'\renewcommand\labelenumi{@@\theenumi}\renewcommand\labelitemi{@@}\begin{enumerate}\item u\item v\end{enumerate}\begin{itemize}\item u\end{itemize}')
slot('eqn', r'\begin{equation}x\label{KKe}\end{equation}@ \ref{KKe} @\begin{eqnarray}x&=&y\\z&=&u\end{eqnarray}@')
slot('write', r'\typeout{@@}\message{@@}u\special{@@}v')
slot('csname', r'\def\KKa{@}\KKa\expandafter\KKa\uppercase{@@}\lowercase{@@}')
slot('footnote-title', r'\section{A\footnote{@@}}x\subsection[u]{B\footnote{@@}}y')
slot('hidden', r'\phantom{@@}\hphantom{@@}\vphantom{@@}u\label{KKz}')
slot('input-text', r'\obeylines @\par{\obeyspaces @}')
SLOTS['tabular-p']['body'] = SLOTS['tabular-p']['body'].replace('\0', '\1')
SLOTS['index']['body'] = SLOTS['index']['body'].replace(r'k\0', 'k\2')

NEST_INLINE = [r'\textbf{%s}', r'\emph{%s}', r'\footnote{%s}', r'\mbox{%s}', r'{\it %s}', r'\texttt{%s}', '{%s}', r'\fbox{%s}']
NEST_BLOCK = [r'\begin{itemize}\item %s\end{itemize}', r'\begin{quote}%s\end{quote}', r'\begin{enumerate}\item u\item %s\end{enumerate}',
              r'\begin{tabular}{ll}%s&u\end{tabular}', r'\begin{figure}x\caption{%s}\end{figure}', r'\begin{center}%s\end{center}',
              r'\begin{description}\item[%s] u\end{description}', r'\begin{minipage}{3cm}%s\end{minipage}', r'\parbox{2cm}{%s}']
THEMES = [(5, ('HTML5', 'minimal')), (3, ('HTML5', 'default')), (4, ('XHTML', 'default')), (1, ('HTML5', 'fragment')),
          (1, ('XHTML', 'minimal')), (1, ('XHTML', 'plain')), (1, ('XHTML', 'python'))]


def nested(s, depth):
    """Text inside several commands and environments"""
    body = '@'
    for i in range(depth):
        body = s.choice(NEST_INLINE) % (body if s.bool(2, 3) else body + ' @')
    for i in range(s.int(0, 2)):
        # Captions take no environments
        body = s.choice([b for b in NEST_BLOCK if 'begin' not in body or ('caption' not in b and '[%s' not in b)]) % body
    if s.bool(1, 4) and 'begin' not in body and 'footnote' not in body:
        body = s.choice([r'\section{%s}x ', r'\subsection{%s}x ', r'\section*{%s}x ']) % body
    return body


def fill(parts, pick):
    """Put a text into every position of the parts [(source, kind)]"""
    n = [0]
    out = []
    for src, kind in parts:
        def f(m):
            n[0] += 1
            return pick(n[0] - 1, kind)
        out.append(re.sub('@@|@', f, src).replace('\1', '@{}').replace('\2', '"@'))
    return out


def word(i):
    return 'Zq' + ''.join('abcdefghij'[int(c)] for c in '%03d' % i) + 'w'


def gen(s, tier):
    first = s.choice(sorted(SLOTS))
    names = [first]
    cls = SLOTS[first]['cls']
    more = [n for n in sorted(SLOTS) if SLOTS[n]['cls'] in ('article', cls)]
    if cls not in ('beamer', 'memoir'):
        for i in range(s.weighted([(2, 0), (3, 1), (3, 2), (2, 3)])):
            n = s.choice(more)
            taken = [SLOTS[x]['once'] for x in names]
            if n not in names and not (SLOTS[n]['once'] and SLOTS[n]['once'] in taken):
                # hyperref's \url is not the one of url
                if n == 'url' and any('hyperref' in SLOTS[x]['pk'] for x in names) or 'hyperref' in SLOTS[n]['pk'] and 'url' in names:
                    continue
                if 'abstract' in (n,) and 'report' in names or cls in ('book',) and n == 'abstract':
                    continue
                names.append(n)
    if cls == 'book' and first != names[0]:
        names.reverse()
    # lists of things come last
    names.sort(key=lambda n: SLOTS[n]['once'] in ('bib', 'index'))
    parts = []
    for i, n in enumerate(names):
        sl = SLOTS[n]
        parts.append([sl['pre'].replace('KK', 'q' + chr(97 + i)), sl['kind'], n, 'pre'])
        parts.append([sl['body'].replace('KK', 'q' + chr(97 + i)), sl['kind'], n, 'body'])
        if s.bool(1, 3) and sl['once'] not in ('bib', 'index') and cls != 'beamer':
            parts.append(['\n\n' + nested(s, s.int(0, 2)) + '\n\n', 'text', 'nested', 'body'])
    total = sum(len(re.findall('@@|@', p[0])) for p in parts)
    texts = [phrase(s) for i in range(max(1, total))]
    if s.bool(1, 4):
        texts = [texts[0]] * len(texts)
    rend = s.weighted(THEMES)
    enc = s.weighted([(6, 'utf-8'), (2, 'ascii'), (1, 'latin-1'), (1, 'cp1252')])
    return {'class': cls, 'packages': sorted({p for n in names for p in SLOTS[n]['pk']}), 'parts': parts, 'texts': texts,
            'renderer': list(rend), 'encoding': enc, 'split': s.weighted([(4, 2), (2, 1), (1, -10), (1, 0), (1, 6)]),
            'escape': s.bool(1, 3), 'toggle': s.bool(1, 3), 'charsub': s.bool(1, 4)}


def corpus(tier):
    """Every slot with each of the basic characters in the main renderers"""
    out = []
    for i, name in enumerate(sorted(SLOTS)):
        sl = SLOTS[name]
        parts = [[sl['pre'].replace('KK', 'qa'), sl['kind'], name, 'pre'], [sl['body'].replace('KK', 'qa'), sl['kind'], name, 'body']]
        total = sum(len(re.findall('@@|@', p[0])) for p in parts)
        texts = ['<b>&lt;"x', 'é</b>&amp;\'y', '"><i z="<&']
        for j, rend in enumerate([('HTML5', 'default'), ('HTML5', 'minimal'), ('XHTML', 'default')]):
            out.append({'class': sl['cls'], 'packages': sl['pk'], 'parts': parts, 'texts': [texts[(k + j + i) % 3] for k in range(total)],
                        'renderer': list(rend), 'encoding': 'utf-8', 'split': 2, 'escape': False, 'toggle': False, 'charsub': False})
    if tier == 'quick':
        out = out[0::3] + out[2::3]
    return out


def source(case, hostile):
    words = {}
    verbatim = set()

    def pick(i, kind):
        w = word(i)
        if not hostile:
            return w
        src, dec = tex(kind, case['texts'][i % len(case['texts'])])
        words[w] = dec
        if kind in ('verb', 'lst', 'url'):
            verbatim.add(w)
        return w + src + 'Zz'
    filled = fill([(p[0], p[1]) for p in case['parts']], pick)
    pre = ''.join(t for t, p in zip(filled, case['parts']) if p[3] == 'pre')
    body = ''.join(t for t, p in zip(filled, case['parts']) if p[3] == 'body')
    src = '\\documentclass{%s}\n%s%s\n\\begin{document}\n%s\n\\end{document}\n' % (
        case['class'], ''.join('\\usepackage{%s}\n' % p for p in case['packages']), pre, body)
    return src, words, verbatim


def show(case):
    return '%s/%s split %d encoding %s escape %s charsub-off %s\n%s' % (
        case['renderer'][0], case['renderer'][1], case['split'], case['encoding'], case['escape'], case['charsub'], source(case, True)[0])


def page(case, src, escape):
    opts = [('files', 'split-level', case['split']), ('files', 'output-encoding', case['encoding']),
            ('files', 'escape-high-chars', escape)]
    if case['charsub']:
        opts.append(('document', 'disable-charsub', ['"', "'", '`']))
    return render.render(src, case['renderer'][0], case['renderer'][1], opts, binary=True)[1]


def decode(files, encoding):
    out = {}
    for k, v in files.items():
        if k.endswith('.html'):
            out[k] = v.decode(encoding)
    return out


def run(case, obs):
    plain_src = source(case, False)[0]
    hostile_src, decoded, verbatim = source(case, True)
    try:
        plain = canonical(decode(page(case, plain_src, case['escape']), case['encoding']))
    except Exception as e:
        return 'the document with plain words raises %r' % e
    try:
        raw = page(case, hostile_src, case['escape'])
        hostile = canonical(decode(raw, case['encoding']))
    except Exception as e:
        return 'the document with hostile text raises %r' % e
    if set(plain) != set(hostile):
        return 'files %s with plain words, %s with hostile text' % (sorted(plain), sorted(hostile))
    shown = set()
    for f in sorted(plain):
        a, b = events(plain[f]), events(hostile[f])
        obs.hit('event', len(a))
        msg = differs(f, a, b, decoded, verbatim)
        if msg:
            return msg
        for e in a:
            if e[0] == 'text':
                shown.update(WORD.findall(e[1]))
    # Positions that are shown
    n = 0
    for src, kind, name, where in case['parts']:
        for m in re.findall('@@|@', src):
            if m == '@' and word(n) not in shown and case['renderer'] != ['HTML5', 'fragment'] and visible(case):
                return 'the text %s of %s is not displayed' % (word(n), name)
            n += 1
    obs.hit('word-shown', len(shown))
    if case['toggle']:
        try:
            other = page(case, hostile_src, not case['escape'])
        except Exception as e:
            return 'escape-high-chars=%s raises %r' % (not case['escape'], e)
        for escape, files in ((case['escape'], raw), (not case['escape'], other)):
            if escape:
                for f, data in files.items():
                    if f.endswith('.html') and any(c > 127 for c in data):
                        return '%s has bytes above 127 with escape-high-chars' % f
        other = canonical(decode(other, case['encoding']))
        for f in sorted(hostile):
            msg = differs(f, events(hostile[f]), events(other.get(f, '')), {}, same=True)
            if msg:
                return 'escape-high-chars changes the text: ' + msg
        obs.hit('escape-toggled')
    text = ''.join(decoded.values())
    for k, c in (('lt', '<'), ('amp', '&'), ('quote', '"')):
        if c in text:
            obs.hit('hostile-' + k)
    if any(ord(c) > 127 for c in text):
        obs.hit('hostile-high')
    if case['encoding'] != 'utf-8':
        obs.hit('encoding-not-utf8')
    obs.hit(case['renderer'][0].lower())
    if len(plain) > 1:
        obs.hit('several-files')
    for p in case['parts']:
        obs.seen('slot', (p[2], case['renderer'][0]))
        if p[1] in ('verb', 'lst'):
            obs.hit('verbatim')
        if p[2] == 'nested':
            obs.hit('nested')
    obs.seen('text', text)
    obs.nontrivial = bool(shown)
    return None


def visible(case):
    """Themes of XHTML other than the default one leave out parts of some documents"""
    return case['renderer'] in (['HTML5', 'default'], ['HTML5', 'minimal'], ['XHTML', 'default'])
