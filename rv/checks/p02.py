"""Output format monitor: every JSON text the reader writes is strict JSON of the
documented token format, without internal markers."""
import os

from .. import flow, fuzz, gen, schema, target
from ..core import CURRENT

PROPERTY = "P02"
LEVEL = "exploration"
RULE = "distinct sets of token types checked together"
ASSUMPTIONS = ["format as written down in rv/schema.py; nesting rules only for well-formed documents"]
MIN_EVENTS = {"tokens_checked": 20000, "wellformed": 500, "hostile": 500}

BIB = "\\begin{thebibliography}{9}\n%s\n\\end{thebibliography}\n"


def blocktable(g):
    """a table with whole blocks in its cells"""
    r = g.rng
    ban = gen.FLOATS + ("section", "paragraph", "appendix", "verbatim", "verb")

    def cell():
        k = r.randrange(8)
        if k == 0:
            return "\\begin{%s} %s \\end{%s}" % ((e := r.choice(["zz" + g.word(), "center", "quote", "proof", "minipage}{3cm"])), g.word(), e.split("}")[0])
        if k == 1:
            return "\\%s{%s}{%s%s}" % (r.choice(["multicolumn{2}", "multirow{2}"]), r.choice(["c", "*"]), g.word(), r.choice(["", "$x$", " \\textbf{%s}" % g.word()]))
        if k == 2:
            return r.choice(["", "{}", "~", "\\zz%s{}" % g.word().lower(), "{\\small %s}" % g.word()])
        if k == 3:
            return g.tabular()[0]
        if k < 6:
            return g.blocks(1, 1, ban)[0]
        return g.inline(2, 1, (), ("verb",))[0]
    n = r.randrange(1, 4)
    rows = " \\\\\n".join(" & ".join(cell() for _ in range(n)) for _ in range(r.randrange(1, 4)))
    return "\\begin{tabular}{%s}\n%s\n\\end{tabular}" % ("l" * n, rows)


def wellformed(r):
    g = gen.Gen(r, {}, {"appendix": 1, "longtable": 2, "list": 8, "thm": 6}, depth=r.choice([1, 2, 3]),
                richtable=True, richunknown=True, richcode=True, chapter=0.2)
    if r.random() < 0.15:
        g.wi.update(verb=20, math=20)
        g.wb.update(verbatim=30, eq=30)
    if r.random() < 0.3:
        def phmath(g_, d, st):
            k, w = g_.key(), g_.word()
            return g_.rng.choice(["$a_{\\ref{%s}} + b$ %s", "$\\cite{%s}$ %s", "\\[ x = \\text{\\ref{%s}} \\] %s", "$\\href{http://x.y}{%s}$ %s",
                                  "$x\\footnote{%s}$ %s", "\\begin{equation} x \\ref{%s} \\end{equation} %s"]) % (k, w), []
        g.macros.append(phmath)
        g.wi["macro"] = 8
    front = ""
    if r.random() < 0.4:
        front = "\\title{%s}\n\\author{%s \\and %s \\email{%s@x.org}}\n\\begin{abstract}%s\\end{abstract}\n\\keywords{%s}\n" % tuple(g.inline(3, 1, (), ("fn", "verb", "cite"))[0] for _ in range(6))
    if r.random() < 0.3:
        front += "\\definecolor{%s}{HTML}{FF00%02X}\n" % (g.word(), r.randrange(256))
    t, _ = g.blocks(r.randrange(1, 12), top=True)
    if r.random() < 0.3:
        t += "\n\n" + blocktable(g)
    if r.random() < 0.2:
        t += "\n\n{\\%s\n%s\n}\n%s" % (r.choice(["small", "bfseries", "color{red}", "tt"]), blocktable(g) if r.random() < 0.5 else g.blocks(2, 2, ("verb", "verbatim"))[0], g.word())
    if r.random() < 0.3:
        t += "\n" + BIB % "\n".join("\\bibitem%s{%s} %s" % (r.choice(["", "[%s(2001)]" % g.word()]), g.word() + str(i), g.inline(4, 1, (), ("fn", "verb", "cite"))[0]) for i in range(r.randrange(1, 5)))
    t = "".join(g.preamble) + front + t
    return "\\documentclass{article}\n\\begin{document}\n" + t + "\n\\end{document}\n" if r.random() < 0.6 else t


def case(i, rng, obs, tier):
    for k in range(6):
        strict = k % 2 == 0
        text = wellformed(rng) if strict else fuzz.hostile(rng)[1]
        CURRENT["input"] = text
        path = os.path.join(flow.scratch(), "main.tex")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        reader = target.TexReader()
        res = reader.process(path)
        out = os.path.join(flow.scratch(), "out", "o.json")
        if k == 0:
            reader.save_to_json(res, out)
            with open(out, "rb") as f:
                js = f.read().decode("utf-8")
        else:
            js = reader.to_json(res)
        c = schema.Checker(text, strict)
        try:
            c.document(schema.strict_loads(js))
        except ValueError as e:
            c.err("$", str(e))
        obs.ev()
        obs.count("wellformed" if strict else "hostile")
        obs.count("tokens_checked", c.n)
        for ty, n in c.types.items():
            obs.count("type:" + ty, n)
        obs.seen("types", tuple(sorted(c.types)))
        obs.sample({"input": text[:300], "json": js[:300]})
        if strict and c.n == 0:
            c.err("$", "well-formed document without any token")
        if c.bad:
            obs.fail("format", "; ".join(c.bad[:4]) + "\n--- input ---\n" + text[:4000], {"input": text})


def plan(tier):
    return {"cases": 500 if tier == "quick" else 15000, "budget": 120 if tier == "quick" else 1500, "cpu_limit": 60}
