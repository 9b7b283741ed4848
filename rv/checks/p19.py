"""Route monitor: the same project as main file, folder and every kind of archive
gives the same document."""
import json
import os
import shutil
import tempfile

from .. import flow, gen, macros, norm, project, target
from ..core import CURRENT

PROPERTY = "P19"
LEVEL = "exploration"
RULE = "distinct (route, document shape) pairs compared with direct conversion of the main file"
ASSUMPTIONS = ["the folder holds one main file"]
MIN_EVENTS = {"evaluations": 600, "zip": 80, "tar": 80, "folder": 80, "gz": 20}

GENS = [
    ({}, {"section": 15, "list": 10, "figure": 8}, {"split": 0.4}, (1, 8)),
    ({"macro": 15}, {}, {"split": 0.3}, (1, 6)),
    ({}, {"verbatim": 10, "table": 8, "eq": 15}, {"split": 0.2, "richcode": True}, (1, 8)),
]

BIB = "@article{%s,\n author = {%s, A. and B. %s},\n title = {The {%s} of %s},\n year = {1999}\n}\n"


def make(rng):
    """-> (files, main name)"""
    inline, block, opts, nb = GENS[rng.randrange(len(GENS))]
    g = project.ProjectGen(rng, inline, block, **opts)
    ms = macros.Macros(rng)
    if "macro" in inline:
        g.wi.update(verb=0)
        for _ in range(rng.randrange(1, 5)):
            ms.make(g, False)
        g.macros.append(ms.inline_hook)
    tex, _ = g.blocks(rng.randrange(nb[0], nb[1] + 1), top=True)
    head = ["\\documentclass{%s}" % rng.choice(["article", "amsart", "mycls"])]
    if rng.random() < 0.4:
        head.append("\\usepackage{%s}" % rng.choice(["mysty", "amsmath,mysty", "sty/extra"]))
        g.files["mysty.sty"] = "\\newcommand{\\zzstyword}{%s}\n" % g.word()
        g.files["sty/extra.sty"] = "\\newcommand{\\zzstyword}{%s}\n" % g.word()
        tex += "\n\n%s \\zzstyword{} %s" % (g.word(), g.word())
    if rng.random() < 0.4:
        head.append("\\definecolor{%s}{rgb}{0.1,0.2,0.%d}" % (g.word(), rng.randrange(10)))
    head += ms.defs
    if rng.random() < 0.5:
        f = rng.choice(["refs", "bib/refs"])
        g.files[f + ".bib"] = "".join(BIB % tuple(g.word() for _ in range(5)) for _ in range(rng.randrange(1, 4)))
        tex += "\n\n\\bibliographystyle{plain}\n\\bibliography{%s}" % f
    g.files["main.tex"] = "\n".join(head) + "\n\\begin{document}\n" + tex + "\n\\end{document}\n"
    files = {n: ms.as_macros(t) for n, t in g.files.items()}
    if rng.random() < 0.5:
        files["img/fig.png"] = bytes(rng.randrange(256) for _ in range(200))
        files["notes.txt"] = "\\documentclass{article} not a tex file"
        files["zz/README.md"] = "x"
    if rng.random() < 0.3:
        files["a_unused.tex"] = "text without a class\n% \\documentclass{article}\n"
    if rng.random() < 0.15:
        files["0/extra/data.csv"] = "1,2\n" * 1000
    for n in list(files):
        if n.endswith(".tex") and rng.random() < 0.1:
            files[n] = files[n].replace("\n", "\r\n")
    return files


def outcome(reader, result):
    return json.loads(reader.to_json(result))


def case(i, rng, obs, tier):
    base = os.path.join(flow.scratch(), "p19")
    shutil.rmtree(base, ignore_errors=True)
    tmp = os.path.join(base, "tmp")
    os.makedirs(tmp)
    tempfile.tempdir = tmp
    files = make(rng)
    CURRENT["input"] = repr({k: v if len(v) < 3000 else "..." for k, v in files.items()})
    # what the folders are called does not matter
    proj = os.path.join(base, rng.choice(["proj", "proj", "thesis.style", "my.cls", "a b", "v1.tikz-figs", "x.cfg", "out.tex", "refs.bib", "1.definitions", "Ünï", "a.zip", "~x"]))
    project.write(proj, files)
    shared = target.TexReader()
    reader = lambda: shared if rng.random() < 0.5 else target.TexReader()
    ref = outcome(shared, shared.process_file(os.path.join(proj, "main.tex")))
    shape = flow.shape(flow.normal(ref["tokens"]))
    if not ref["tokens"]:
        obs.fail("empty", "conversion of the main file is empty: " + CURRENT["input"])
        return
    routes = []
    routes.append(("file-str", lambda r: r.process(os.path.join(proj, "main.tex"))))
    routes.append(("folder", lambda r: r.process(proj)))
    routes.append(("folder", lambda r: r.process_folder(target_path(proj, rng))))
    pre = rng.choice(["", "", "arXiv-1234.5678v1/", "a/b/", "./", "my.style/", "x.tex/", "p.clo/q.fd/"])
    z = os.path.join(base, rng.choice(["x", "a.b", "my paper"]) + ".zip")
    project.make_zip(z, files, rng, pre)
    routes.append(("zip", lambda r: r.process(z, cleanup=rng.random() < 0.5)))
    routes.append(("zip", lambda r: r.process_compressed(z, rng.random() < 0.5)))
    t = os.path.join(base, rng.choice(["x", "arXiv-1.2v3"]) + rng.choice([".tar.gz", ".tgz"]))
    project.make_tar(t, files, rng, pre)
    routes.append(("tar", lambda r: r.process(t, cleanup=rng.random() < 0.5)))
    routes.append(("tar", lambda r: r.process_compressed(t, rng.random() < 0.5)))
    rng.shuffle(routes)
    for name, f in routes:
        r = reader()
        res = f(r)
        obs.ev()
        obs.count(name)
        obs.seen("route", (name, shape))
        o = outcome(r, res)
        if o != ref:
            obs.fail("route:" + name, f"{name} (prefix {pre!r}): differs from direct conversion: {norm.first_diff(ref['tokens'], o['tokens'])} colors {o['color_map']} {ref['color_map']}\n{CURRENT['input']}", {"files": repr(files)})
        tail = os.path.basename(str(res.main_tex_path))
        if tail != "main.tex":
            obs.fail("main:" + name, f"{name}: main file is {res.main_tex_path}")
        res.cleanup()
    # a single compressed file
    if all("\\input" not in d and "\\include{" not in d for d in (files["main.tex"],)) and len([n for n in files if n.endswith((".sty", ".bib"))]) == 0:
        name = rng.choice(["paper.gz", "paper.tex.gz", "1234.5678.gz", "paper.tar.gz"])
        gz = os.path.join(base, name)
        project.make_gz(gz, files["main.tex"])
        r = reader()
        res = r.process(gz)
        obs.ev()
        obs.count("gz")
        if outcome(r, res) != ref:
            obs.fail("route:gz", f"{name}: differs from direct conversion\n{CURRENT['input']}", {"files": repr(files)})
        res.cleanup()
    obs.sample({"files": sorted(files), "prefix": pre})


def target_path(p, rng):
    from pathlib import Path
    return rng.choice([p, p + "/", Path(p)])


def plan(tier):
    return {"cases": 400 if tier == "quick" else 8000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 60}
