"""Macro monitor: a document with user macros converts to the same structure as
the document with every call replaced by what it stands for."""
from .. import flow, gen, macros, mathtree, norm

PROPERTY = "P13"
LEVEL = "exploration"
RULE = "distinct shapes of documents with macro calls compared with their inlined form"
ASSUMPTIONS = ["arguments are given in braces or brackets", "definitions precede every use and names are new",
               "formulas are compared as the tree TeX reads, so redundant groups do not count"]
MIN_EVENTS = {"evaluations": 500, "calls": 2000, "definitions": 2000}

GENS = [
    ({"macro": 25, "word": 20}, {}, {}, (1, 6), (1, 8), (0, 4)),
    ({"macro": 15, "math": 25}, {"eq": 30}, {}, (1, 5), (0, 3), (2, 8)),
    ({"macro": 30, "style": 15, "fn": 8, "group": 8}, {"list": 15, "thm": 10, "section": 15, "table": 10}, {}, (2, 6), (2, 10), (1, 5)),
    ({"macro": 25}, {"para": 10, "quote": 5}, {}, (1, 4), (10, 30), (5, 20)),
]


def build(rng, spec):
    inline, block, opts, nb, nt, nm = spec
    g = gen.Gen(rng, dict(inline, verb=0, unknown=0), dict(block, verbatim=0, diagram=0, algorithm=0), **opts)
    ms = macros.Macros(rng)
    for _ in range(rng.randrange(nt[0], nt[1] + 1)):
        ms.make(g, False)
    for _ in range(rng.randrange(nm[0], nm[1] + 1)):
        ms.make(g, True)
    g.macros.append(ms.inline_hook)
    g.mathmacros.append(ms.math_hook)
    tex, nodes = g.blocks(rng.randrange(nb[0], nb[1] + 1), top=True)
    return ms, tex, nodes


def case(i, rng, obs, tier):
    for k in range(3):
        ms, tex, nodes = build(rng, GENS[(i * 3 + k) % len(GENS)])
        mode = flow.MODES[rng.randrange(3)]
        defs = "\n".join(ms.as_macros(d) for d in ms.defs) + "\n"
        a = ms.as_macros(tex)
        b = ms.inlined(tex)
        if rng.random() < 0.4:
            head = "\\documentclass{article}\n" if mode != "plain" else ""
            a = head + defs + "\\begin{document}\n" + a + "\n\\end{document}\n"
            b = head + "\\begin{document}\n" + b + "\n\\end{document}\n"
        else:
            a = defs + a
        na = mathtree.retree(flow.observe(a, mode))
        nb_ = mathtree.retree(flow.observe(b, mode))
        obs.ev()
        obs.count("mode:" + mode)
        obs.count("calls", len(macros.MARK.findall(tex)))
        obs.count("definitions", len(ms.defs))
        obs.seen("shape", (flow.shape(gen.expected(nodes)), len(ms.defs)))
        obs.sample({"mode": mode, "input": a[:500]})
        d = norm.first_diff(nb_, na, "$")
        if d:
            obs.fail("macro", f"[{mode}] inlined vs macros: {d}\n--- macros ---\n{a}\n--- inlined ---\n{b}", {"input": a, "inlined": b, "mode": mode})


def worker_init(obs, tier):
    # spaces separate command names from letters, keep them for the trees
    norm.mtex = lambda s: " ".join(s.split())


def plan(tier):
    return {"cases": 500 if tier == "quick" else 15000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
