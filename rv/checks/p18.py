"""Inclusion monitor: a document spread over files converts like the document in
one piece."""
import os
import shutil

from .. import flow, gen, macros, mathtree, norm, project, target
from ..core import CURRENT

PROPERTY = "P18"
LEVEL = "exploration"
RULE = "distinct document shapes x number of included files"
ASSUMPTIONS = ["file names are given in braces, relative to the main file", "formulas do not span files"]
MIN_EVENTS = {"evaluations": 500, "files": 1500, "cyclic": 40, "macro projects": 40}

GENS = [
    ({}, {}, {"split": 0.35}, (1, 12)),
    ({}, {"list": 20, "quote": 15, "thm": 10, "layout": 10}, {"split": 0.5, "depth": 3}, (1, 6)),
    ({"macro": 15}, {}, {"split": 0.4}, (2, 10)),
    ({}, {"section": 30, "figure": 10, "table": 10, "eq": 15, "thm": 15, "appendix": 3}, {"split": 0.3}, (5, 30)),
    ({"word": 60}, {"para": 60}, {"split": 0.8, "filedepth": 12}, (2, 8)),
    ({}, {"section": 10, "verbatim": 15, "algorithm": 5, "diagram": 5}, {"split": 0.5, "labels": 0.9}, (2, 10)),
]


def run(main, files, root):
    shutil.rmtree(root, ignore_errors=True)
    project.write(root, files)
    p = os.path.join(root, "main.tex")
    CURRENT["input"] = repr(files)
    return target.convert_file(p)["tokens"]


def case(i, rng, obs, tier):
    root = os.path.join(flow.scratch(), "proj")
    for k in range(3):
        kind = (i * 3 + k) % 9
        if kind == 7:
            cyclic(rng, obs, root)
            continue
        if kind == 8:
            repeated(rng, obs, root)
            continue
        inline, block, opts, nb = GENS[kind % len(GENS)]
        g = project.ProjectGen(rng, inline, block, **opts)
        ms = None
        if "macro" in inline:
            ms = macros.Macros(rng)
            g.wi.update(verb=0, unknown=0)
            g.wb.update(verbatim=0, diagram=0, algorithm=0)
            for _ in range(rng.randrange(1, 6)):
                ms.make(g, False)
            for _ in range(rng.randrange(0, 3)):
                ms.make(g, True)
            g.macros.append(ms.inline_hook)
            g.mathmacros.append(ms.math_hook)
        tex, nodes = g.blocks(rng.randrange(nb[0], nb[1] + 1), top=True)
        head = ""
        doc = rng.random() < 0.7
        if ms:
            # definitions in one or two files read before their first use
            defs = [ms.as_macros(d) for d in ms.defs]
            c = rng.randrange(len(defs) + 1)
            one, two = "\n".join(defs[:c]), "\n".join(defs[c:])
            head = g.to_file(one) + "\n" + (g.to_file(two) if rng.random() < 0.5 else two) + "\n"
        full = tex
        if doc:
            main = "\\documentclass{article}\n" + head + "\\begin{document}\n" + tex + "\n\\end{document}\n"
        else:
            main = head + tex
        files = dict(g.files)
        files["main.tex"] = main
        if ms:
            files = {n: ms.as_macros(t) for n, t in files.items()}
        out = flow.normal(run("main.tex", files, root))
        obs.ev()
        obs.count("files", len(files))
        obs.count("inputs", g.inputs)
        obs.seen("shape", (flow.shape(gen.expected(nodes)), len(files)))
        if ms:
            obs.count("macro projects")
            one = project.inlined(files["main.tex"], files)
            exp = flow.observe(one, "file")
            what = "one file vs many"
        else:
            exp = gen.expected(nodes)
            exp = [{"t": "document", "c": exp}] if doc else exp
            what = "expected vs many files"
        d = norm.first_diff(flow.full(exp), flow.full(out))
        if d and ms:
            # where a macro is expanded decides about redundant braces in formulas
            d = norm.first_diff(flow.full(mathtree.retree(exp)), flow.full(mathtree.retree(out)))
        obs.sample({"files": {n: t[:120] for n, t in list(files.items())[:4]}})
        if d:
            obs.fail("input", f"{what}: {d}\n" + show(files), {"files": files})


def show(files):
    return "\n".join(f"--- {n} ---\n{t}" for n, t in files.items())


def repeated(rng, obs, root):
    """the same file included at several places"""
    g = project.ProjectGen(rng, {}, {"figure": 0, "table": 0, "list": 10}, split=0.0)
    files = {}
    parts = []
    for n in range(rng.randrange(1, 4)):
        files["f%d.tex" % n] = g.blocks(rng.randrange(1, 4), top=True)[0]
    for _ in range(rng.randrange(2, 8)):
        if rng.random() < 0.6:
            parts.append("\\input{f%d}" % rng.randrange(len(files)))
        else:
            parts.append(g.blocks(1, top=True)[0])
    parts.append("\\input{f0}\n\n\\input{f0.tex}")
    files["main.tex"] = "\n\n".join(parts)
    out = flow.normal(run("main.tex", files, root))
    exp = flow.observe(project.inlined(files["main.tex"], files), "file")
    obs.ev()
    obs.count("files", len(files))
    obs.count("repeated")
    d = norm.first_diff(exp, out)
    if d:
        obs.fail("repeat", f"one file vs repeated inclusion: {d}\n" + show(files), {"files": files})


def cyclic(rng, obs, root):
    """files that include each other: every chain ends where a file would include
    itself again, everything else is there"""
    g = gen.Gen(rng)
    n = rng.randrange(1, 6)
    names = ["main"] + ["c%d" % j for j in range(1, n)]
    body = {}
    for x in names:
        body[x] = []
        for _ in range(rng.randrange(1, 4)):
            body[x].append(("w", g.word()))
            if rng.random() < 0.7:
                body[x].append(("in", rng.choice(names)))
        body[x].append(("w", g.word()))
    ext = lambda: rng.choice(["", ".tex"])
    files = {x + ".tex": "\n\n".join(v if k == "w" else rng.choice(["\\input{%s}", "\\include{%s}", "\\input{./%s}", "\\input{d/../%s}"]) % (v + ext()) for k, v in b) for x, b in body.items()}
    files["d/x.txt"] = ""

    def expand(x, open_):
        out = []
        for k, v in body[x]:
            if k == "w":
                out.append(v)
            elif v not in open_:
                out += expand(v, open_ + (v,))
            if len(out) > 5000:
                raise OverflowError
        return out
    try:
        exp = expand("main", ("main",))
    except OverflowError:
        return
    out = flow.plain_words(flow.normal(run("main.tex", files, root)))
    obs.ev()
    obs.count("cyclic")
    obs.count("files", len(files))
    obs.seen("cycle", sorted(files.values()) and (n, len(exp)))
    d = norm.first_diff(exp, out)
    if d:
        obs.fail("cycle", f"cyclic inclusion: {d}\n" + show(files), {"files": files})


def plan(tier):
    return {"cases": 700 if tier == "quick" else 12000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
