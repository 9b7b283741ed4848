"""Layout and bookkeeping commands that say nothing about the content."""
import re

# may stand between two words of running text, anywhere
INLINE = r"""\noindent
\newpage
\clearpage
\cleardoublepage
\pagebreak
\pagebreak[4]
\nopagebreak
\nopagebreak[3]
\linebreak
\linebreak[2]
\smallskip
\medskip
\bigskip
\vfill
\hfill
\hfil
\vfil
\sloppy
\raggedright
\raggedleft
\flushbottom
\indent
\quad
\qquad
\,
\;
\:
\!
\/
\-
\ 
\xspace
\null
\relax
\ignorespaces
\FloatBarrier
\phantomsection
\allowdisplaybreaks
\allowdisplaybreaks[1]
\samepage
\centering
\newline
\linenumbers
\bigbreak
\medbreak
\smallbreak
\goodbreak
\allowbreak
\vspace{1cm}
\vspace*{-2ex}
\vspace {1cm}
\vspace{\baselineskip}
\vspace{-0.5\baselineskip}
\vspace{2ex plus 1ex minus .2ex}
\hspace{1cm}
\hspace*{-2ex}
\hspace {1cm}
\hspace{0.5\textwidth}
\hspace*{\fill}
\vskip 2pt
\vskip2pt
\vskip -1.5em
\vskip\baselineskip
\vskip 2pt plus 1pt minus 1pt
\hskip 1em
\hskip1em
\hskip -1em
\hskip 1em plus 2em
\hskip 0pt plus 1fil
\kern 3pt
\kern-3pt
\kern.5em
\kern\parindent
\penalty-1000
\penalty 10000
\penalty0
\enlargethispage{2\baselineskip}
\enlargethispage*{1cm}
\setlength{\parindent}{0pt}
\setlength\parindent{0pt}
\setlength {\parindent} {0pt}
\setlength{\parskip}{2ex plus 1ex}
\addtolength{\textwidth}{1cm}
\addtolength\textwidth{-1cm}
\setcounter{page}{1}
\setcounter {page} {1}
\addtocounter{footnote}{-1}
\stepcounter{zed}
\refstepcounter{zed}
\pagestyle{plain}
\thispagestyle{empty}
\pagenumbering{arabic}
\addcontentsline{toc}{section}{Zed}
\linespread{1.2}
\linespread{1.2}\selectfont
\baselineskip=12pt
\baselineskip=1.2\baselineskip
\parindent=0pt
\parindent 0pt
\parindent0pt
\parskip=2pt plus 1pt minus 1pt
\parskip 2pt
\parskip 2pt plus 1pt
\itemsep0pt
\itemsep=0pt
\topsep=0pt
\tabcolsep=2pt
\hsize=3in
\abovedisplayskip=0pt
\rule{1pt}{2pt}
\rule[2pt]{1pt}{2pt}
\rule{\textwidth}{0.4pt}
\hrulefill
\vphantom{x}
\hphantom{xx}
\phantom{\frac{a}{b}}
\pdfbookmark[1]{zed}{zoo}
\raisebox{0pt}{}
\mbox{}
\typeout{zed}
\fontsize{12}{14}\selectfont
\unskip
\hfill\break
\bigskip\noindent
{\vskip 2pt}
\makeatletter
\makeatother
\vskip 10sp
\vskip 3bp
\vskip 3mu
\vskip 1 true cm
\vskip 1.5truein
\hskip 2dd
\hskip 3 cc
\hskip 1 true in
\kern 2nd
\kern 1 true mm
\hspace{10bp}
\filbreak
\par\noindent
\break
\global
\lineskip=2pt
\belowcaptionskip=2pt
\abovecaptionskip 2pt
\abovecaptionskip=-1ex
\arraycolsep=1pt
\fboxsep=2pt
\columnsep=1cm
\headsep=2pt
\headheight=12pt
\footskip 2pt
\itemindent 1em
\partopsep=0pt
\parsep 0pt
\parsep=0pt
\labelsep 2pt
\labelsep=2pt
\labelwidth 3em
\leftmargin 2em
\rightmargin=1cm
\leftmargin=0pt
\arrayrulewidth=0.4pt
\fboxrule 0.2pt
\hangindent=2em
\hangindent 1.5em
\hfuzz=2pt
\emergencystretch=3em
\topskip=0pt
\mathindent=2em
\abovedisplayskip 3pt plus 1pt
\belowdisplayshortskip=3pt plus 2pt minus 1pt
\settowidth{\zzlen}{abc}
\settoheight{\zzlen}{abc}
\settodepth{\zzlen}{abc}
\bookmark[page=2]{zed}
\startcontents[sections]
\stopcontents[sections]
\printcontents[sections]{}{1}{}
\pdfbookmark{zed}{zoo}
\belowpdfbookmark{zed}{zoo}
\currentpdfbookmark{zed}{zoo}""".split("\n")

# stand on a line of their own, mostly in the preamble or between paragraphs
BLOCK = INLINE + r"""\maketitle
\tableofcontents
\twocolumn
\onecolumn
\bibliographystyle{plain}
\hypersetup{colorlinks=true, linkcolor={blue}}
\captionsetup{font=small}
\captionsetup[figure]{labelfont={bf,it}}
\geometry{margin=1in}
\addtocontents{toc}{\protect\vspace{2pt}}
\hyphenation{zed-zoo}
\date{Zed 2020}
\theoremstyle{plain}
\numberwithin{equation}{section}
\counterwithin{figure}{section}
\setcitestyle{square,numbers}
\urlstyle{same}
\graphicspath{{zed/}{zoo/}}
\usetikzlibrary{zed,zoo}
\lstset{language=C, basicstyle=\ttfamily}
\setlist[itemize]{noitemsep}
\setlist{nosep}
\crefname{zed}{Zed}{Zeds}
\Crefname{zed}{Zed}{Zeds}
\definecolor{zed}{rgb}{0,1,0}
\newlength{\zzlen}
\newcounter{zzc}
\newcounter{zzd}[section]
\DeclareGraphicsExtensions{.pdf,.png}
\PassOptionsToPackage{zed}{zoo}
\ProcessOptions
\pdfoutput=1
\titleformat{\section}{\large\bfseries}{\thesection}{1em}{}
\titlespacing{\section}{0pt}{2pt}{3pt}
\titlespacing*{\section}{0pt}{2pt}{3pt}
\setcounter{tocdepth}{2}
\setcounter{secnumdepth}{3}
\renewcommand{\arraystretch}{1.2}
\renewcommand\thefootnote{\arabic{footnote}}
\clubpenalty=10000
\widowpenalty=10000
\oddsidemargin 0in
\topmargin -0.5in
\textheight=9in
\textwidth 6.5in
\DeclareMathOperator{\zzop}{zoo}
\newtheorem{zzthm}{Zed}
\pacs{12.34}
\subjclass[2010]{Primary 12}
\pagecolor{white}
\let\zed\relax
\hrule
\titlecontents{section}[0pt]{\bfseries}{\thecontentslabel}{}{\hfill\contentspage}
\titlecontents{section} [0pt] {\bfseries} {\thecontentslabel} {} {\hfill}
\printcontents{}{1}{}
\tcbset{colback=red}
\DeclareOption{zed}{zoo}
\DeclareOption*{zoo}
\ProvidesPackage{zed}[2020/01/01 v1]
\NeedsTeXFormat{LaTeX2e}
\NeedsTeXFormat{LaTeX2e}[1995/12/01]
\PassOptionsToClass{zed}{zoo}
\subjclass{Primary 12}
\subjclass[2010] {Primary 12; Secondary 3}
\newmdenv[linecolor=red]{zedbox}
\newmdenv{zedbox}
\pdfinfo{/Title (zed)}
\newpagestyle{zed}{\sethead{a}{b}{c}}
\renewpagestyle{plain}[\small]{\sethead{a}{b}{c}}
\newlength\zzlenb
\newskip\zzskip
\newdimen\zzdim
\newcount\zzcount
\newtoks\zztoks
\newif\ifzze
\DeclareMathAlphabet{\zzcal}{OMS}{cmsy}{m}{n}
\DeclareSymbolFont{zed}{OMS}{cmsy}{m}{n}
\SetMathAlphabet{\zzcal}{bold}{OMS}{cmsy}{b}{n}
\font\zzed=cmr10
\font\zzed=cmr10 at 12pt
\font\zzed=cmr10 scaled 1200
\font\zzed=cmr10 scaled\magstep1
\newtheoremstyle{zed}{3pt}{3pt}{\itshape}{}{\bfseries}{.}{.5em}{}
\setkeys{Gin}{width=zed}
\DeclareFontFamily{U}{zed}{}
\DeclareFontShape{U}{zed}{m}{n}{<-> zed10}{}
\newcolumntype{Z}{>{\centering}X}
\newcolumntype{Z}[1]{p{#1}}
\usepgflibrary{zed}
\pgfplotsset{compat=1.5}
\renewcommand{\headrulewidth}{0pt}
\setcounter{topnumber}{2}
\renewcommand{\topfraction}{.9}
\floatsep=12pt
\textfloatsep=10pt plus 2pt
\intextsep 4pt
\paperwidth=8.5in
\hoffset=-1in
\voffset -0.4in
\evensidemargin=0pt
\marginparwidth 1in
\vfuzz=2pt
\interfootnotelinepenalty=10000
\fancyhead{}
\lhead{}""".split("\n")

GAPS = [lambda t: re.sub(r"(\\[a-zA-Z@]+\*?)\{", r"\1 {", t), lambda t: t.replace("}{", "} {"), lambda t: re.sub(r"(\\[a-zA-Z@]+\*?)\[", r"\1 [", t),
        lambda t: t.replace("]{", "] {"), lambda t: t.replace("}[", "} [")]


def vary(r, t):
    """white space may stand before the arguments of a command"""
    return r.choice(GAPS)(t) if r.random() < 0.2 else t
