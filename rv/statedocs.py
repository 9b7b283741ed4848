"""Documents that declare things of every kind under names from a small shared
vocabulary, and use those names whether they are declared or not: anything that
survives from one document to the next changes the result of the next."""
from . import gen

NAMES = ["qqa", "qqb", "qqc"]


def declare(r, g, n):
    """one declaration of something called n -> tex"""
    w, k = g.word(), r.randrange(1, 4)
    return r.choice([
        lambda: "\\newcommand{\\%s}{%s}" % (n, w),
        lambda: "\\newcommand{\\%s}[%d]{%s %s}" % (n, k, w, " ".join("#%d" % (i + 1) for i in range(k))),
        lambda: "\\newcommand{\\%s}[2][%s]{#2 #1}" % (n, w),
        lambda: "\\def\\%s{%s}" % (n, w),
        lambda: "\\def\\%s#1{%s #1}" % (n, w),
        lambda: "\\edef\\%s{%s}" % (n, w),
        lambda: "\\let\\%s=\\textbf" % n,
        lambda: "\\let\\%s\\alpha" % n,
        lambda: "\\expandafter\\def\\csname %s\\endcsname{%s}" % (n, w),
        lambda: "\\DeclareMathOperator{\\%s}{%s}" % (n, w),
        lambda: "\\DeclarePairedDelimiter{\\%s}{(}{)}" % n,
        lambda: "\\newcommand{\\%s}{\\ifmmode %s\\else $%s$\\fi}" % (n, "x", "y"),
        lambda: "\\newlength{\\%s}" % n,
        lambda: "\\newtoks\\%s" % n,
        lambda: "\\newsavebox{\\%s}" % n,
        lambda: "\\providecommand{\\%s}{%s}" % (n, w),
        lambda: "\\DeclareRobustCommand{\\%s}{%s}" % (n, w),
    ])()


def other(r, g, n):
    w = g.word()
    v = r.choice
    return r.choice([
        lambda: "\\newif\\if%s%s" % (n, v(["", "\n\\%strue" % n, "\n\\%sfalse" % n])),
        lambda: "\\newtheorem%s{%senv}{%s}" % (v(["", "*"]), n, w),
        lambda: "\\newtheorem{%senv}[theorem]{%s}" % (n, w),
        lambda: "\\newtheorem{%senv}{%s}[section]" % (n, w),
        lambda: "\\newenvironment{%senv}{%s}{%s}" % (n, w, g.word()),
        lambda: "\\newenvironment{%senv}[1]{%s #1}{}" % (n, w),
        lambda: "\\newenvironment{%senv}{\\begin{quote}}{\\end{quote}}" % n,
        lambda: "\\renewenvironment{%s}{%s}{}" % (v(["proof", "quote", "abstract"]), w),
        lambda: "\\floatname{%senv}{%s}" % (n, w),
        lambda: "\\newfloat{%senv}{tbp}{lo%s}\n\\floatname{%senv}{%s}" % (n, n, n, w),
        lambda: "\\definecolor{%s}{HTML}{%06X}" % (n, r.randrange(1 << 24)),
        lambda: "\\definecolor{%s}{rgb}{0,%.1f,1}" % (n, r.random()),
        lambda: "\\colorlet{%s}{red!50}" % n,
        lambda: "\\newcounter{%s}" % n,
        lambda: "\\newbool{%s}%s" % (n, v(["", "\n\\booltrue{%s}" % n, "\n\\setbool{%s}{true}" % n])),
        lambda: "\\newtoggle{%s}\n\\toggle%s{%s}" % (n, v(["true", "false"]), n),
        lambda: "\\defcitealias{%s}{%s}" % (n, w),
        lambda: "\\graphicspath{{%s/}}" % w,
        lambda: "\\makeatletter\n\\def\\%s@x{%s}\n\\define@key{fam}{%s}{%s #1}\n\\makeatother" % (n, w, n, w),
        lambda: "\\newcolumntype{Q}[1]{>{%s}p{#1}}" % w,
        lambda: "\\crefname{%s}{%s}{%ss}" % (n, w, w),
        lambda: "\\DeclareGraphicsExtensions{.%s}" % w,
        lambda: "\\setcounter{section}{%d}\n\\setcounter{equation}{%d}" % (r.randrange(9), r.randrange(9)),
        lambda: "\\renewcommand{\\%s}[1]{%s #1}" % (v(["textbf", "emph", "textit", "bar", "vec"]), w),
        lambda: "\\renewcommand{\\the%s}{%s}" % (v(["section", "equation"]), w),
        lambda: "\\newrobustcmd{\\%srob}{%s}" % (n, w),
        lambda: "\\newsavebox{\\%s}\n\\s%s" % (n, v(["box{\\%s}{%s}", "box\\%s{%s}"]) % (n, w)),
        lambda: "\\newsavebox\\%s\n\\savebox{\\%s}[2cm]{%s}" % (n, n, w),
        lambda: "\\setbox0=\\hbox{%s}" % w,
        lambda: "\\newbox\\%s\n\\setbox\\%s=\\hbox{%s}" % (n, n, w),
        lambda: "\\author{%s\\thanks{%s}}\n\\footnotetext{%s}" % (w, g.word(), g.word()),
        lambda: "\\robustify{\\%s}" % n,
        lambda: "\\title{%s}\n\\author{%s}\n\\date{%s}" % (w, g.word(), g.word()),
    ])()


def use(r, g, n):
    w = g.word()
    v = r.choice
    return r.choice([
        lambda: "%s \\%s{} %s" % (w, n, g.word()),
        lambda: "\\%s{%s}" % (n, w),
        lambda: "\\%s{%s}{%s}" % (n, w, g.word()),
        lambda: "\\%s[%s]{%s}" % (n, w, g.word()),
        lambda: "$x + \\%s{y}$ %s" % (n, w),
        lambda: "\\begin{align}\n\\%s %s\n\\end{align}" % (n, "z"),
        lambda: "\\if%s %s\\else %s\\fi" % (n, w, g.word()),
        lambda: "\\begin{%senv}\n%s\n\\end{%senv}" % (n, w, n),
        lambda: "\\begin{%senv}[%s]\\label{%s}\n%s\n\\end{%senv}" % (n, g.word(), n, w, n),
        lambda: "\\begin{%senv}{%s}\n%s\n\\end{%senv}" % (n, g.word(), w, n),
        lambda: "\\usebox{\\%s} %s \\copy\\%s \\box0 \\unhbox0 \\box\\%s" % (n, w, n, n),
        lambda: "$x \\usebox{\\%s} \\box0 \\citetalias{%s}$ %s" % (n, n, w),
        lambda: "\\author{%s\\thanksmark{1}}\\footnotemark[1]" % w,
        lambda: "\\author{%s\\samethanks}" % w,
        lambda: "\\if%s %s" % (n, w),
        lambda: "\\fi %s \\else %s" % (w, g.word()),
        lambda: "\\%strue %s \\%sfalse" % (n, w, n),
        lambda: "\\if%strue %s" % (n, w),
        lambda: "\\textcolor{%s}{%s}" % (n, w),
        lambda: "\\ifbool{%s}{%s}{%s}" % (n, w, g.word()),
        lambda: "\\iftoggle{%s}{%s}{%s}" % (n, w, g.word()),
        lambda: "\\citetalias{%s} %s" % (n, w),
        lambda: "\\cref{%s} \\cite{%s} %s" % (n, n, w),
        lambda: "\\includegraphics{%s}" % w,
        lambda: "\\setkeys{fam}{%s=%s}" % (n, w),
        lambda: "\\begin{tabular}{lQ{2cm}} %s & %s \\end{tabular}" % (w, n),
        lambda: "\\%srob %s" % (n, w),
        lambda: "\\textbf{%s} \\emph{%s} $\\bar{x}\\vec{v}$" % (w, g.word()),
        lambda: "\\the%s \\arabic{%s} %s" % (n, n, w),
        lambda: "\\label{%s} %s" % (n, w),
        lambda: "\\section{%s}\\label{%s}" % (w, n),
        lambda: "\\begin{equation}\\label{%s} x \\end{equation}" % n,
        lambda: "\\begin{theorem} %s \\end{theorem}\n\\begin{proof} %s \\end{proof}" % (w, g.word()),
        lambda: "\\begin{figure}\\caption{%s}\\label{%s}\\end{figure}" % (w, n),
        lambda: "\\footnote{%s} \\footnotemark %s" % (w, n),
        lambda: "\\begin{quote}\n%s\n\\end{quote}\n\\begin{abstract} %s \\end{abstract}" % (w, g.word()),
    ])()


def text(r, top=True, files=None):
    """-> text of a document"""
    g = gen.Gen(r)
    out = []
    for _ in range(r.randrange(0, 6)):
        out.append((declare if r.random() < 0.5 else other)(r, g, r.choice(NAMES)))
    if files is not None:
        for n in r.sample(["local", "other"], r.randrange(0, 3)):
            if r.random() < 0.6:
                files[n + ".sty"] = "\n".join((declare if r.random() < 0.5 else other)(r, g, r.choice(NAMES)) for _ in range(r.randrange(1, 4))) + "\n"
            out.append("\\usepackage{%s}" % n)
        for n in r.sample(["part", "sub/part2"], r.randrange(0, 2)):
            if r.random() < 0.8:
                files[n + ".tex"] = "\n\n".join([use(r, g, r.choice(NAMES)), declare(r, g, r.choice(NAMES)), use(r, g, r.choice(NAMES))])
            out.append("\\input{%s}" % n)
    body = []
    for _ in range(r.randrange(1, 9)):
        z = r.random()
        if z < 0.7:
            body.append(use(r, g, r.choice(NAMES)))
        elif z < 0.85:
            body.append((declare if r.random() < 0.5 else other)(r, g, r.choice(NAMES)))
        else:
            body.append(g.blocks(1, top=True)[0])
    if r.random() < 0.2:
        body.insert(r.randrange(len(body) + 1), "\\appendix")
    if r.random() < 0.15:
        body.append("\\begin{itemize} \\item %s" % g.word())   # never closed
    if files is not None and r.random() < 0.3:
        if r.random() < 0.7:
            files["refs.bib"] = "@misc{%s,\n title = {%s}\n}\n" % (r.choice(NAMES), g.word())
        if r.random() < 0.2:
            files["refs.bbl"] = "\\begin{thebibliography}{9}\n\\newcommand{\\%s}{%s}\n\\bibitem{%s} %s\n\\end{thebibliography}\n" % (r.choice(NAMES), g.word(), r.choice(NAMES), g.word())
        body.append("\\bibliography{refs}")
    sep = r.choice(["\n\n", "\n"])
    if r.random() < 0.6:
        return "\\documentclass{article}\n%s\n\\begin{document}\n%s\n\\end{document}\n" % ("\n".join(out), sep.join(body))
    return sep.join(out + body)


def crowd(r, files):
    """a project in which several things of the same kind disagree, so that the order
    in which they are taken is visible -> main file"""
    g = gen.Gen(r)
    names = r.sample(["aa", "bb", "cc", "dd", "ee", "sub/ff", "gg-1"], r.randrange(2, 7))
    n = r.choice(NAMES)

    def clash(k=None):
        w = g.word()
        return [
            lambda: "\\newtheorem{%senv}{%s}" % (n, w),
            lambda: "\\newtheorem*{%senv}{%s}" % (n, w),
            lambda: "\\definecolor{%s}{HTML}{%06X}" % (n, r.randrange(1 << 24)),
            lambda: "\\floatname{%senv}{%s}" % (n, w),
            lambda: "\\newcommand{\\%s}{%s}" % (n, w),
            lambda: "\\renewcommand{\\%s}[1]{%s #1}" % (n, w),
            lambda: "\\DeclareMathOperator{\\%s}{%s}" % (n, w),
            lambda: "\\newenvironment{%senv}{%s}{%s}" % (n, w, g.word()),
            lambda: "\\newif\\if%s \\%s%s" % (n, n, r.choice(["true", "false"])),
        ][r.randrange(9) if k is None else k]()
    kinds = r.sample(range(9), r.randrange(1, 5))
    for x in names:
        files[x + ".sty"] = "\n".join([clash(k) for k in kinds] + [clash() for _ in range(r.randrange(0, 3))]) + "\n"
    lists = lambda: r.choice(["\\usepackage{%s}", "\\RequirePackage{%s}", "\\usepackage{%s}\n"]) % r.choice([",", ", ", " , "]).join(r.sample(names, r.randrange(1, len(names) + 1)))
    for x in ("all", "more"):
        if r.random() < 0.6:
            files[x + ".sty"] = "\n".join(lists() for _ in range(r.randrange(1, 3))) + "\n"
    head = [lists() for _ in range(r.randrange(0, 3))] + ["\\usepackage{%s}" % x for x in ("all", "more") if x + ".sty" in files]
    r.shuffle(head)
    if r.random() < 0.5:
        head += [clash() for _ in range(r.randrange(1, 4))]
    keys = [g.word() for _ in range(6)]
    body = [use(r, g, r.choice([n, n, r.choice(NAMES)])) for _ in range(r.randrange(1, 6))]
    body.append("\\begin{%senv}\n%s\n\\end{%senv}" % (n, g.word(), n))
    body.append("\\textcolor{%s}{%s}" % (n, g.word()))
    body.append("\\cite{%s} \\cref{%s} \\citep[see][p.~2]{%s}" % tuple(",".join(r.sample(keys, r.randrange(1, 6))) for _ in range(3)))
    if r.random() < 0.7:
        bibs = r.sample(["b1", "b2", "refs/b3", "b4"], r.randrange(1, 5))
        for b in bibs:
            if r.random() < 0.9:
                fields = ["title", "author", "year", "journal", "note", "doi"]
                files[b + ".bib"] = "\n".join("@%s{%s,\n%s\n}" % (r.choice(["misc", "article", "book"]), k, ",\n".join(" %s = {%s}" % (f, g.word()) for f in r.sample(fields, r.randrange(1, 6)))) for k in r.sample(keys, r.randrange(1, 6)))
            if r.random() < 0.15:
                files[b + ".bbl"] = "\\begin{thebibliography}{9}\n%s\n\\end{thebibliography}\n" % "\n".join("\\bibitem{%s} %s" % (k, g.word()) for k in r.sample(keys, r.randrange(1, 6)))
        body.append("\\bibliography{%s}" % ",".join(bibs))
    if r.random() < 0.5:
        body.append("\\begin{tabular}{%s}\n%s \\\\ \n\\end{tabular}" % ("l" * 5, " & ".join(g.word() for _ in range(5))))
    r.shuffle(body)
    return "\\documentclass{article}\n%s\n\\begin{document}\n%s\n\\end{document}\n" % ("\n".join(head), r.choice(["\n\n", "\n"]).join(body))
