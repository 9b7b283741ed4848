"""Hostile input: command soup, mutated documents, odd characters, deep nesting,
runaway macros, long runs of one construct.  No expectation about the output,
used by the totality and well-formedness monitors."""
import re

from . import gen

CMDS = r"""\section \subsection* \subsubsubsection \part \chapter \paragraph \title \author \and \thanks \abstract \caption \captionof \footnote \footnotemark \footnotetext \label \ref \eqref \cref \autoref \hyperref \href \url \doi \cite \citep \citet \citeauthor* \includegraphics \includepdf \input \include \bibliography \addbibresource \appendix \keywords \date \maketitle \textbf \textit \emph \texttt \underline \textsc \text \textcolor \color \colorbox \fcolorbox \definecolor \bf \it \tt \em \large \tiny \itshape \bfseries \mbox \fbox \makebox \framebox \parbox \raisebox \savebox \usebox \newsavebox \sbox \verb \lstinline \item \hline \multicolumn \multirow \cline \toprule \newcommand \renewcommand \providecommand \def \edef \gdef \let \newif \iftrue \iffalse \ifx \ifnum \ifdim \else \fi \newenvironment \renewenvironment \newtheorem \newtheorem* \DeclareMathOperator \DeclareMathOperator* \DeclarePairedDelimiter \foreach \ifthenelse \ifstrempty \hspace \vspace \hphantom \phantom \vskip \hskip \noindent \newline \linebreak \\ \pagebreak \newpage \csname \endcsname \expandafter \' \" \c \H \alpha \frac \sqrt \left \right \begin \end \fontsize \usefont \romannumeral \texorpdfstring \subfloat \onecolumn \twocolumn \bibitem \defcitealias \citetalias \setcounter \addtocounter \newcounter \the \titleformat \titlespacing \resizebox \scalebox \rotatebox \adjustbox \usepackage \documentclass \RequirePackage \LoadClass \newfloat \floatname \crefname \hypersetup \makeatletter \@ifnextchar \@ifstar \ensuremath \unknown \fill \email \affil \affiliation \address \captionsetup \setlength \rule \nopagebreak \bookmark \pdfbookmark \setkeys \define@key \newtoggle \toggletrue \iftoggle \robustify \newrobustcmd \overpic \put \tikz \pgfmathsetmacro \DeclareRobustCommand \NewDocumentCommand \newcolumntype \subimport \import \subfile \footcite \nocite \bibliographystyle \printbibliography \lowercase \uppercase \ifdefined \ifcsname \newlength \cfoot \lhead \fancyhead \pagestyle \thispagestyle \raggedright \centering \begingroup \endgroup \bgroup \egroup \relax \protect \string \textsuperscript \verb* \| \, \; \! \- \/ \@ \a \b \x \foo \bar \endinput \endfoo \ProvidesPackage \DeclareOption \ProcessOptions \AtBeginDocument \makecell \shortstack \subcaption \tabularnewline \noalign \cellcolor \rowcolor \index \glossary \marginpar \todo \textquoteleft \ldots \ss \o \i \j \LaTeX \TeX \today \thesection \thepage \theequation \stepcounter \refstepcounter \value \arabic \tag \nonumber \intertext \shortintertext \mathbb \mathcal \operatorname \substack \underset \overset \bm \si \SI \num \qty \ce""".split()
ENVS = "document abstract itemize enumerate description equation equation* align align* gather multline eqnarray subequations figure figure* table table* tabular tabular* tabularx array matrix verbatim Verbatim lstlisting minted algorithm algorithmic theorem lemma proof quote center minipage subfigure thebibliography tikzpicture pgfpicture picture overpic appendices appendix comment filecontents cases keywords foo wrapfigure longtable titlepage frontmatter acknowledgments IEEEkeywords biblist bibdiv bib adjustbox tabbing list frame block columns landscape small".split()
ATOMS = ["{", "}", "[", "]", "$", "$$", "%", "\n", "\n\n", " ", "~", "&", "#1", "#2", "#", "##1", "a", "word", "1", "2cm", "*", "|", "=", ",", "^", "_", "@",
         "\\(", "\\)", "\\[", "\\]", "\\{", "\\}", "\\$", "\\%", "\\&", "\\#", "\\_", "é", "中", "{}", "{a}", "[b]", "{\\foo}", "{c}{d}", "``", "''", "--", "---",
         "\\", "\\\n", "\\ ", "<", ">", "\"", "'", "`", "^^M", "\t"]
ODD = ["\x00", "\x01", "\x07", "\x0b", "\x0c", "\x1b", "\x1c", "\x85", "\xa0", "\u2028", "\u2029", "\u200b", "\ufeff", "\u202e", "e\u0301", "\U0001d49c", "\U0001f600",
       "\r", "\r\n", "\x7f", "\ufffd", "\uffff", "İ", "ß", "①", "½", "\\ud800", "\\udead ", "\\u00e9",  "ﬁ", "\u0660", "²", "Ⅷ"]
ARGS = ["\\csname foo\\endcsname", "\\csname a(b\\endcsname{x}", "\\csname @b:c\\endcsname#1{(#1)}", "\\csname \\string\\foo x", "{a}", "{a}{b}", "[o]{a}", "{\\x}", "{\\foo}{b}", "{\\foo}[1]{b#1}", "{a b}{c}{d}", "{\\foo}[2][d]{#1 \\foo{#2}}", "{foo}[1]{x #1}{y}", "\\foo{a\\bar}", "\\foo#1{#1}", "\\foo#1.#2{#2#1}",
        "\\foo=\\bar", "\\foo\\bar", "{1}{2}{3}{4}", "{-1}", "{$x$}", "{a,b , c}", "[", "{", "*", "*{", "[a][b]{c}", "(1,2){x}", "{red}{rgb}{1,0,0}", "{foo}", "{}", "[]{}", "{%\n}", "{\\begin{a}}", "{}{}{}", "<1->{x}", "{9999999999999999999999}"]


def soup(r):
    n = r.randint(1, r.choice([4, 8, 20, 40]))
    o = []
    for _ in range(n):
        k = r.random()
        if k < .4:
            o.append(r.choice(CMDS))
            j = r.random()
            if j < .65:
                o.append(r.choice(ARGS))
            elif j < .8:
                o.append(" ")
        elif k < .55:
            e = r.choice(ENVS)
            if r.random() < .6:
                o += ["\\begin{%s}" % e, r.choice(["", "{c}", "[h]", "{c}{d}", "[a]{b}"]), r.choice(ATOMS), r.choice(["", "a & b \\\\", "\\item x", "\\label{k}", "\\caption{c}", "\\bibitem{k} x"]), "\\end{%s}" % e]
            else:
                o.append(r.choice(["\\begin{%s}", "\\end{%s}"]) % e)
        elif k < .97:
            o.append(r.choice(ATOMS))
        else:
            o.append(r.choice(ODD))
    return "".join(o)


def document(r, n=None):
    g = gen.Gen(r, {}, {"appendix": 1}, depth=3, richtable=True, richcode=True)
    t, _ = g.blocks(n or r.randrange(2, 9), top=True)
    if r.random() < 0.4:
        t = "\\documentclass{article}\n\\newcommand{\\foo}[1]{<#1>}\n\\begin{document}\n" + t + "\n\\end{document}"
    return t


def _cut(r, s):
    a = r.randrange(len(s) + 1)
    return a, min(len(s), a + r.choice([1, 1, 1, 2, 5, 20, 100]))


NUMBERS = ["", "0", "-1", "+1", "1.5", "²", "٣", "①", "00009", "10", "99", "65536", "2147483648", "999999999", "9" * 30, "9" * 4400, "1e9", "0x10", "\\foo", "{3}", "#1", "NaN", "1,2", "½", "-", "."]


def numbers(r, s):
    """some numbers replaced by strange ones"""
    x = r.choice(NUMBERS)
    return re.sub(r"\d+", lambda m: m.group(0) if r.random() < 0.6 else r.choice([x, r.choice(NUMBERS)]), s)


NUMERIC = r"""\newcommand{\foo}[2]{a #1 #2} \foo{x}{y}|\newcommand{\foo}[2][d]{a #1 #2} \foo{y}|\def\foo#1#2{b #1} \foo{x}{y}|\newenvironment{foo}[2]{a #1}{b #2}\begin{foo}{x}{y}z\end{foo}
\begin{tabular}{ll}\multicolumn{2}{c}{x} & y \\ \multirow{2}{3cm}{z} & w \\ a & b\end{tabular}|\begin{tabular}{*{3}{l}} a & b & c \end{tabular}|\multirow{2}{*}{a}|\cline{2-3}|\cmidrule(lr){1-2}
\romannumeral 12 x|\romannumeral12|\includegraphics[page=3]{x}|\includepdf[pages=1-3]{x}|\includegraphics[width=0.5\textwidth,angle=90]{x}|\num[round-precision=2]{1.23456}|\SI[round-precision=3]{12}{m}|\qty{3}{kg}
\setbox0=\hbox{x}\box0|\setbox12\hbox{x}\copy12|\footnotemark[3]|\footnotetext[3]{x}|\setcounter{section}{3}\section{a}|\addtocounter{equation}{-2}|\begin{enumerate}[start=3]\item a\end{enumerate}|\char65|\symbol{65}|\char"41
\ifnum 3>2 a\else b\fi|\ifnum\value{x}<12 a\fi|\ifcase 2 a\or b\or c\fi|\ifdim 3pt>2pt a\fi|\hspace{3cm}|\vspace*{-2pt}|\hskip 3pt plus 1fil x|\vskip12pt x|\kern-3pt x|\fontsize{12}{14}\selectfont x|\rule{3cm}{2pt}
\begin{multicols}{2} x \end{multicols}|\parbox[t][3cm]{2cm}{x}|\raisebox{3pt}[1pt][2pt]{x}|\begin{thebibliography}{99}\bibitem[1]{k} x\end{thebibliography}|\foreach \n in {1,2,...,9}{\n}|\color[rgb]{1,0,0}x|\textcolor[RGB]{10,20,30}{x}|\definecolor{c}{gray}{0.5}\textcolor{c}{x}
\hfilneg1|\linebreak[4]|\pagebreak[3]|\\[3pt] x|\penalty-100 x|\begin{wrapfigure}[12]{r}{3cm}x\end{wrapfigure}|\u00e9 \ud834 \udd1e|\begin{alignat}{2} a & b \end{alignat}|\tag{3}|\setlength{\parindent}{3pt}|\pdfbookmark[1]{a}{b}|\resizebox{3cm}{!}{x}|\scalebox{0.5}{x}|\rotatebox{90}{x}
\newtheorem{foo}{Foo}[section]\begin{foo}[1]x\end{foo}|\cite[p.~3]{k}|\begin{minipage}[t]{0.5\textwidth}x\end{minipage}|\begin{tabular*}{3cm}{l}x\end{tabular*}|\list{1}{2}\item x\endlist|$x^{2}_{10}$|\begin{array}{*{3}{c}} a \end{array}|\magnification 1200 x|\newlength{\foo}\foo=3pt x|\newcount\foo \foo=12 x\advance\foo by 3""".replace("\n", "|").split("|")


def numeric(r):
    return r.choice([" ", "\n", ""]).join(numbers(r, r.choice(NUMERIC)) for _ in range(r.choice([1, 1, 2, 5])))


def mutate(r, s, n=None):
    """damage a document: characters and spans deleted, doubled, moved, replaced"""
    for _ in range(n or r.choice([1, 1, 2, 4, 10])):
        if not s:
            return s
        k = r.randrange(9)
        a, b = _cut(r, s)
        if k == 8:
            s = numbers(r, s)
        elif k == 0:
            s = s[:a] + s[b:]
        elif k == 1:
            s = s[:b] + s[a:b] * r.choice([1, 1, 3]) + s[b:]
        elif k == 2:
            s = s[:a] + r.choice(ATOMS + ODD) + s[a:]
        elif k == 3:
            s = s[:a]
        elif k == 4:
            x = s[a:b]
            s = s[:a] + s[b:]
            c = r.randrange(len(s) + 1)
            s = s[:c] + x + s[c:]
        elif k == 5:  # remove one special character somewhere
            pos = [i for i, ch in enumerate(s) if ch in "{}$[]\\%&"]
            if pos:
                p = r.choice(pos)
                s = s[:p] + s[p + 1:]
        elif k == 6:
            s = s[:a] + soup(r) + s[a:]
        else:
            s = s[a:]
    return s


NEST = [("{", "}"), ("\\textbf{", "}"), ("{\\bf ", "}"), ("\\footnote{", "}"), ("\\begin{quote}", "\\end{quote}"), ("\\begin{itemize}\\item ", "\\end{itemize}"),
        ("\\begin{foo}", "\\end{foo}"), ("$", "$"), ("\\(", "\\)"), ("\\[", "\\]"), ("[", "]"), ("\\sqrt{", "}"), ("$\\frac{", "}{2}$"), ("\\iftrue ", "\\fi "),
        ("\\begin{tabular}{c}", "\\end{tabular}"), ("\\zzunknown{", "}"), ("\\parbox{2cm}{", "}"), ("\\section{", "}"), ("\\begin{equation}", "\\end{equation}"),
        ("\\ifx a b", "\\else c\\fi"), ("\\textcolor{red}{", "}"), ("\\mbox{", "}"), ("\\begin{theorem}[", "]\\end{theorem}"), ("\\href{u}{", "}"),
        ("\\begin{center}", "\\end{center}"), ("\\begin{minipage}{1cm}", "\\end{minipage}"), ("\\multicolumn{2}{c}{", "}"), ("\\begin{figure}", "\\end{figure}"),
        ("\\caption{", "}"), ("\\begin{subequations}", "\\end{subequations}"), ("\\newcommand{\\foo}{", "}"), ("\\def\\foo{", "}"), ("\\'{", "}"), ("\\^{", "}")]


def nested(r):
    d = r.choice([5, 20, 60, 120, 200])
    a = [r.choice(NEST) for _ in range(r.choice([1, 1, 2]))]
    o, c = "", ""
    for i in range(d):
        x = a[i % len(a)]
        o, c = o + x[0], x[1] + c
    k = r.random()
    if k < .6:
        return o + "x" + c
    if k < .8:
        return o + "x"
    return o + "x" + c[:r.randrange(len(c) + 1)]


BOMBS = [
    "\\expandafter\\def\\csname a(b\\endcsname{x}\\csname a(b\\endcsname", "\\expandafter\\let\\csname a*[\\endcsname\\foo\\csname a*[\\endcsname{x}", "\\@namedef{a+}{x}\\csname a+\\endcsname \\@nameuse{a+}", "\\if\\csname", "\\ifx\\csname a\\endcsname\\relax x\\fi",
    "\\def\\a{\\a}\\a", "\\def\\a{x\\a}\\a y", "\\newcommand{\\a}{\\b}\\newcommand{\\b}{\\a}\\a", "\\def\\a#1{\\a{#1#1}}\\a{x}", "\\def\\a#1{\\a{\\a{#1}}}\\a{x}",
    "\\let\\a\\b\\let\\b\\a \\a", "\\newcommand\\a[1]{\\b{#1}}\\newcommand\\b[1]{x\\a{#1}}\\a{z}", "\\newenvironment{e}{\\begin{e}}{\\end{e}}\\begin{e}x\\end{e}",
    "\\newenvironment{e}{\\begin{f}}{\\end{f}}\\newenvironment{f}{\\begin{e}}{\\end{e}}\\begin{e}x\\end{e}",
    "\\def\\a{\\b\\b}\\def\\b{\\c\\c}\\def\\c{\\d\\d}\\def\\d{\\e\\e}\\def\\e{xx}\\a", "\\foreach \\n in {1,...,5}{\\foreach \\m in {1,...,5}{\\n\\m}}",
    "\\foreach \\n in {1,...,100000}{\\n}", "\\foreach \\n in {1,1,...,2}{x}", "\\foreach \\n in {1,...}{\\n}", "$\\def\\a{\\a}\\a$", "\\edef\\a{\\a}\\a", "\\renewcommand{\\textbf}[1]{\\textbf{#1}}\\textbf{x}",
    "\\newif\\iffoo\\def\\a{\\iffoo\\a\\fi}\\footrue\\a", "\\expandafter\\def\\csname a\\endcsname{\\csname a\\endcsname}\\a", "\\DeclareMathOperator{\\a}{\\a}$\\a$",
    "\\newcommand{\\a}[9]{#1#2#3#4#5#6#7#8#9}\\a123456789", "\\def\\a#1#2{\\a#2#1}\\a{x}{y}", "\\newcommand{\\a}[1][\\a]{#1}\\a", "\\def\\section{\\section}\\section{x}",
    "\\let\\section\\textbf\\section{x}", "\\def\\begin{x}\\begin{a}\\end{a}", "\\def\\end{}\\begin{quote}x\\end{quote}", "\\def\\\\{\\\\}a\\\\b", "\\def\\item{\\item}\\begin{itemize}\\item x\\end{itemize}",
    "\\newtheorem{a}{\\a}\\begin{a}x\\end{a}", "\\newcommand{\\a}{\\input{main}}\\a", "\\input{main}", "\\include{main.tex}", "\\catcode`\\@=11 \\def\\a@b{x}\\a@b", "\\uppercase{\\a\\uppercase{b}}",
    "\\romannumeral 99999999", "\\romannumeral -5", "\\multicolumn{99999999}{c}{x}", "\\begin{tabular}{c}\\multirow{99999}{*}{x}\\multicolumn{-1}{c}{y}\\end{tabular}", "\\begin{tabular}{*{9}{c}} a & b \\\\ c \\end{tabular}",
    "\\def\\a#1\\b{(#1)}\\a x\\b", "\\def\\a#1{#1}\\a", "\\def\\a[#1]{#1}\\a[x", "\\newcommand{\\a}[1]{#2}\\a{x}", "\\newcommand{\\a}[99]{#1}\\a{x}", "\\def\\a#1#3{#3}\\a{x}{y}", "\\let\\a=\\undefined\\a", "\\let\\x",
    "\\def", "\\newcommand", "\\newenvironment{x}", "\\begin", "\\end", "\\verb", "\\verb|", "\\left", "\\csname", "\\expandafter", "\\ifx", "\\ifnum", "\\else", "\\fi", "\\or", "\\foreach", "\\foreach \\x in", "\\bibitem", "\\item",
    "\\newcommand{\\a}[1]{\\\\1 \\g<0> \\n #1}\\a{\\1 \\g<1>}", "\\newcommand{\\(}{x}\\(y\\)", "\\newcommand{\\a*}{x}\\a*", "\\newcommand{\\a+}{x}\\a+", "\\newenvironment{a+*(}{x}{y}\\begin{a+*(}z\\end{a+*(}",
    "\\newtheorem{[a}{B}\\begin{[a}x\\end{[a}", "\\def\\*{x}\\*", "\\begin{a+b}x\\end{a+b}", "\\begin{(}x\\end{(}", "\\begin{[}x\\end{[}", "\\begin{*}\\end{*}", "\\begin{ }x\\end{ }", "\\begin{}x\\end{}", "\\begin{\\foo}x\\end{\\foo}",
    "\\definecolor{a(b}{rgb}{1}\\textcolor{a(b}{x}", "\\newif\\if\\iftrue\\fi", "\\newif\\ifa+\\a+true\\ifa+ x\\fi", "\\newcounter{(}\\the(", "\\crefname{(}{a}{b}\\cref{x}", "\\newcommand{\\a}[1]{#1}\\a{{{{{}", "\\a}}}}}", "\\bibitem[{x]}]{k}", "\\url{a{b}c}", "\\href{a}{", "\\cite[a[b]c]{d}", "\\includegraphics[a=[b]]{c}",
]


def bomb(r):
    s = r.choice(BOMBS)
    if r.random() < .5:
        s = soup(r) + s
    if r.random() < .5:
        s += r.choice(["", "\n", " "]) + r.choice([soup(r), r.choice(BOMBS)])
    return s


def doubling(r):
    """macros each calling the next twice: 2^k growth"""
    k = r.choice([4, 8, 12, 20, 40])
    f = r.choice(["\\newcommand{\\%s}{\\%s\\%s}", "\\def\\%s{\\%s\\%s}", "\\newcommand{\\%s}{\\%s x \\%s}"])
    names = ["q" + chr(97 + i // 26) + chr(97 + i % 26) for i in range(k + 1)]
    return "\\def\\%s{y}" % names[-1] + "".join(f % (names[i], names[i + 1], names[i + 1]) for i in range(k)) + r.choice(["\\%s", "$\\%s$", "\\section{\\%s}"]) % names[0]


def runs(r):
    """one construct repeated"""
    a = r.choice(CMDS + ATOMS + ODD + ENVS + ["\\begin{%s}" % r.choice(ENVS), "\\end{%s}" % r.choice(ENVS), r.choice(CMDS) + r.choice(ARGS), soup(r)[:20], "\\begin{", "\\end{", "\\verb|", "$x", "{[", "[{", "\\[", "a ", "\\label{", "\\iftrue", "\\def\\a{", "@article{", "\\bibitem{a} b "])
    n = r.choice([10, 100, 300, 600])
    s = a * max(1, min(n, 4000 // max(1, len(a))))
    return s + r.choice(["", "x", "}", "]", "\n"])


def noise(r):
    return "".join(r.choice(r.choice([ATOMS, ODD, list("abc \\{}$%&#_^~[]@")])) for _ in range(r.randint(1, 80)))


KINDS = [("soup", 8), ("mutant", 8), ("noise", 2), ("nested", 1), ("bomb", 4), ("runs", 1), ("doubling", 0.3), ("numeric", 2)]


def hostile(r):
    k = r.choices([k for k, _ in KINDS], [w for _, w in KINDS])[0]
    s = {"soup": soup, "noise": noise, "nested": nested, "bomb": bomb, "runs": runs, "doubling": doubling, "numeric": numeric,
         "mutant": lambda r: mutate(r, document(r, r.choice([1, 2, 4])))}[k](r)
    if r.random() < .15:
        s = "\\documentclass{article}\\begin{document}" + s + r.choice(["\\end{document}", ""])
    return k, s
