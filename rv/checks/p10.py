"""Comment monitor: the same document with and without comments converts to the
same JSON (white space inside strings normalised)."""
import os
import re

from .. import flow, gen, norm, target
from ..core import CURRENT

PROPERTY = "P10"
LEVEL = "exploration"
RULE = "distinct document shapes converted with and without comments"
ASSUMPTIONS = ["comments stand at line ends or on lines of their own", "white space next to a comment is only compared up to its kind (space or paragraph break)"]
MIN_EVENTS = {"evaluations": 400, "comments": 8000, "comments in bibliographies": 1000}

CODE = re.compile(r"\\begin\{(verbatim|lstlisting|tikzpicture|algorithmic|comment)\}.*?\\end\{\1\}", re.S)
JUNK = ["@W", "@W @W @W", "}", "{", "{{ @W", "} } @W", "$", "$$ @W", "\\[", "\\(", "\\begin{@W}", "\\end{@W}", "\\begin{itemize}", "\\end{itemize}",
        "\\begin{verbatim}", "\\end{verbatim}", "\\begin{lstlisting} @W", "\\end{document}", "\\begin{document}", "\\documentclass{@W}", "\\verb|@W", "\\verb|@W|",
        "\\newcommand{\\@W}{@W}", "\\newcommand{\\@W}[", "\\def\\@W#1{", "\\input{@W}", "\\section{@W}", "\\section{@W", "\\title{@W}", "\\label{@W}", "\\ref{@W}",
        "\\cite{@W}", "\\iffalse", "\\iftrue @W", "\\fi", "\\else", "\\item @W", "& @W \\\\", "\\\\", "\\", "\\%", "%", "%% @W %%", "``@W", "`@W'", "é — ü", "\\url{http://@W.org/%41}",
        "\\footnote{@W", "\\caption{@W}", "\\usepackage{@W}", "\\bibliography{@W}", "\\appendix", "\\begin{comment}", "\\end{comment}", "\\bf @W", "[", "]", "#1", "\\@W", "~", "-----------------",
        "\\begin{equation} @W", "\\end{equation}", "\\csname @W", "\\let\\section=\\@W", "\\makeatletter", "\\begin{thebibliography}{9}", "\\url{", "\\href{@W%", "\\begin{tabular}{c", "\\textbf{@W"]
ENVJUNK = ["@W", "@W } @W", "{ @W", "$ @W", "\\begin{itemize}", "\\end{itemize}", "\\item @W", "\\section{@W}", "\\label{@W}", "", "\\[ @W", "% @W", "& @W"]


def junk(r, g):
    t = r.choice(JUNK)
    if r.random() < 0.2:
        t += " " + r.choice(JUNK)
    return re.sub("@W", lambda m: g.word(), t)


def commented(tex, r, g, density):
    """-> (tex with comments, number of comments)"""
    spans = [m.span() for m in CODE.finditer(tex)]
    out, pos, n = [], 0, 0
    k = 0
    line_blank = True
    for i, c in enumerate(tex):
        while k < len(spans) and i >= spans[k][1]:
            k += 1
        inside = k < len(spans) and spans[k][0] <= i < spans[k][1]
        if c != "\n":
            if not c.isspace():
                line_blank = False
            out.append(c)
            continue
        if inside or r.random() > density:
            out.append("\n")
        else:
            n += 1
            kind = r.randrange(6)
            if kind < 3 and not line_blank:
                out.append(r.choice([" % ", "%", " %", "\t% "]) + junk(r, g) + "\n")
            elif kind < 5:
                out.append("\n" + r.choice(["% ", "%", "   % ", "%% "]) + junk(r, g) + "\n")
            else:
                out.append("\n%\n" + ("% " + junk(r, g) + "\n") * r.randrange(3))
        line_blank = True
    if r.random() < 0.3:
        out.append(r.choice(["\n% ", "\n%", " % "]) + junk(r, g) + r.choice(["", "\n"]))
        n += 1
    if r.random() < 0.3:
        out.insert(0, "% " + junk(r, g) + "\n")
        n += 1
    return "".join(out), n


def squeeze(x, code=False):
    """white space in strings -> one space, paragraph breaks kept"""
    if isinstance(x, str):
        if code:
            return x
        x = re.sub(r"\s*\n\s*\n\s*", "\n\n", x.strip())
        return re.sub(r"[^\S\n]*\n(?!\n)[^\S\n]*(?<!\n\n)|[^\S\n]+", " ", x) if "\n\n" not in x else "\n\n".join(re.sub(r"\s+", " ", p) for p in x.split("\n\n"))
    if isinstance(x, list):
        return [squeeze(y, code) for y in x]
    if isinstance(x, dict):
        if x.get("type") == "equation":
            x = dict(x, content="".join(x["content"].split()))
        c = x.get("type") in ("code", "diagram", "algorithmic")
        return {k: squeeze(v, c) for k, v in x.items()}
    return x


def convert(tex, mode):
    if mode == "file":
        path = os.path.join(flow.scratch(), "main.tex")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(tex)
        CURRENT["input"] = tex
        return target.convert_file(path)["tokens"]
    return target.convert(tex, mode == "pre")


def comment_env(g, depth):
    r = g.rng
    body = "\n".join(re.sub("@W", lambda m: g.word(), r.choice(ENVJUNK)) for _ in range(r.randrange(1, 4)))
    return "\\begin{comment}\n%s\n\\end{comment}" % body, []


def macro_def(g, depth, styles):
    """a definition over several lines, used at once"""
    g.n += 1
    name = "mm" + "".join("abcdefghij"[int(c)] for c in str(g.n))
    w, v = g.word(), g.word()
    g.preamble.append("\\newcommand{\\%s}[1]{\n  %s\n  #1\n}\n" % (name, w))
    return "\\%s{%s}" % (name, v), [("w", w, styles), ("w", v, styles)]


GENS = [
    ({"verb": 0}, {}, {}, (1, 8)),
    ({"macro": 6}, {}, {}, (1, 6)),
    ({}, {"list": 20, "table": 10, "figure": 8, "eq": 15, "thm": 8, "section": 15}, {"labels": 1.0}, (2, 8)),
    ({"math": 20}, {"eq": 30}, {}, (1, 5)),
    ({"verb": 8}, {"verbatim": 15, "para": 20}, {"richcode": True}, (2, 8)),
    ({"url": 10, "href": 10, "cite": 8}, {"para": 20}, {}, (1, 4)),
    ({}, {"userenv": 6, "para": 20}, {}, (2, 8)),
]


def bibliography(g):
    """a compiled bibliography, over many lines"""
    r = g.rng
    out = [r.choice(["\\begin{thebibliography}{9}", "\\begin{thebibliography}{XX}\n\\providecommand{\\natexlab}[1]{#1}"])]
    for n in range(r.randrange(1, 6)):
        out.append("\\bibitem%s{%s%d}" % (r.choice(["", "", "[%s(2001)]" % g.word(), "[{%s et~al.(1999)}]" % g.word()]), g.word(), n))
        for _ in range(r.randrange(1, 4)):
            out.append(r.choice(["", "\\newblock ", "  "]) + g.inline(r.randrange(1, 4), 1, (), ("fn", "verb", "cite", "ref", "lead", "unknown", "macro"))[0].replace("\n", " ") + r.choice([".", ",", ""]))
        out.append("")
    return "\n".join(out + ["\\end{thebibliography}", ""])


def project(rng, obs):
    """several files, each with and without comments"""
    inline, block, opts, nb = rng.choice(GENS[:6])
    g = gen.Gen(rng, inline, block, **opts)
    g.macros.append(macro_def)
    g.envs.append(comment_env)
    part, nodes = g.blocks(rng.randrange(1, 5), top=True)
    body, more = g.blocks(rng.randrange(1, 4), top=True)
    w = g.word()
    files = {
        "part.tex": part + "\n",
        "loc.sty": "\\NeedsTeXFormat{LaTeX2e}\n\\ProvidesPackage{loc}\n\\newtheorem{zz%s}{%s}\n\\floatname{algorithm}{%s}\n\\newcommand{\\%s}[1]{%s\n#1}\n\\endinput\n" % (
            g.word().lower(), rng.choice(["Lemma", "Remark"]), g.word(), w, g.word()),
        "m.bbl": bibliography(g),
        "main.tex": "\\documentclass{article}\n\\usepackage{loc}\n" + "".join(g.preamble) + "\\begin{document}\n%s\n\\input{part}\n\\cite{%s}\n\\bibliography{m}\n\\end{document}\n" % (body, w),
    }

    def convert_all(files):
        d = os.path.join(flow.scratch(), "proj")
        os.makedirs(d, exist_ok=True)
        for name, t in files.items():
            with open(os.path.join(d, name), "w", encoding="utf-8", newline="") as f:
                f.write(t)
        CURRENT["input"] = files
        return target.convert_file(os.path.join(d, "main.tex"))["tokens"]
    com, n = {}, 0
    density = rng.choice([0.1, 0.4, 0.9])
    for name, t in files.items():
        com[name], k = commented(t, rng, g, density)
        n += k
        if name == "m.bbl":
            obs.count("comments in bibliographies", k)
    ja, jb = squeeze(convert_all(files)), squeeze(convert_all(com))
    obs.ev()
    obs.count("mode:project")
    obs.count("comments", n)
    obs.seen("shape", flow.shape(gen.expected(nodes + more)))
    d = norm.first_diff(ja, jb, "$")
    if d:
        show = lambda x: "\n".join("=== %s\n%s" % y for y in x.items())
        obs.fail("comment", f"[project] with comments: {d}\n--- without ---\n{show(files)}\n--- with ---\n{show(com)}", {"input": com, "clean": files, "mode": "project"})


def case(i, rng, obs, tier):
    project(rng, obs)
    for k in range(3):
        inline, block, opts, nb = GENS[(i * 3 + k) % len(GENS)]
        g = gen.Gen(rng, inline, block, **opts)
        g.macros.append(macro_def)
        g.envs.append(comment_env)
        tex, nodes = g.blocks(rng.randrange(nb[0], nb[1] + 1), top=True)
        tex = "".join(g.preamble) + tex
        mode = flow.MODES[rng.randrange(3)]
        if rng.random() < 0.3:
            tex, _ = flow.wrap_document(rng, tex, [], mode)
        a = tex if "userenv" not in block else re.sub(r"\\begin\{comment\}.*?\\end\{comment\}", "", tex, flags=re.S)
        b, n = commented(tex, rng, g, rng.choice([0.1, 0.4, 0.9]))
        ja = squeeze(convert(a, mode))
        jb = squeeze(convert(b, mode))
        obs.ev()
        obs.count("mode:" + mode)
        obs.count("comments", n)
        obs.seen("shape", flow.shape(gen.expected(nodes)))
        obs.sample({"mode": mode, "commented": b[:400], "tokens": len(ja)})
        d = norm.first_diff(ja, jb, "$")
        if d:
            obs.fail("comment", f"[{mode}] with comments: {d}\n--- without ---\n{a}\n--- with ---\n{b}", {"input": b, "clean": a, "mode": mode})


def plan(tier):
    return {"cases": 500 if tier == "quick" else 15000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
