"""Route monitor: the entry points (string, file, folder, archives of every form)
give the same result for the same document."""
import gzip
import json
import os
import pathlib
import shutil
import tempfile

from .. import flow, fuzz, gen, norm, project, statedocs, target
from ..core import CURRENT

PROPERTY = "P36"
LEVEL = "exploration"
RULE = "distinct (document shape, routes compared)"
ASSUMPTIONS = ["documents parsed without preprocessing define no macros and have no preamble"]
MIN_EVENTS = {"evaluations": 4000, "routes": 4000, "plain against preprocessed": 500, "hostile": 150}


def res_json(r, res):
    return json.loads(r.to_json(res))


def routes(rng, root, files, inc):
    """-> {route: function giving the JSON document}"""
    d = os.path.join(root, rng.choice(["d", "a b", "x.y"]))
    project.write(d, files)
    main = os.path.join(d, "main.tex")
    text = files["main.tex"]
    ismain = target.TexFileExtractor.is_main_tex_file(text)

    def arch(ext):
        p = os.path.join(root, "a" + ext)
        (project.make_zip if ext == ".zip" else project.make_tar)(p, files, rng, prefix=rng.choice(["", "", "paper/", "a/b c/"]))
        return p

    def proc(p, how="process"):
        r = target.TexReader()
        if how == "process":
            res = r.process(p, **rng.choice([{}, {"cleanup": False}, {"cleanup": True}]))
        elif how == "compressed":
            res = r.process_compressed(str(p), **rng.choice([{}, {"cleanup": False}, {"cleanup": True}]))
        else:
            res = getattr(r, how)(p)
        try:
            return res_json(r, res)
        finally:
            res.cleanup()

    def saved(p):
        r = target.TexReader()
        res = r.process(p)
        o = os.path.join(root, "new", "o.json")
        r.save_to_json(res, rng.choice([o, pathlib.Path(o)]))
        res.cleanup()
        with open(o, encoding="utf-8") as f:
            return json.load(f)

    def relative(p):
        old = os.getcwd()
        os.chdir(rng.choice([root, d, "/"]))
        try:
            return proc(os.path.relpath(p))
        finally:
            os.chdir(old)

    def string():
        p = target.LatexParser()
        t = target.TokenBuilder().build(p.parse(text.replace("\r\n", "\n").replace("\r", "\n"), preprocess=True))
        return {"tokens": target.dump(t), "color_map": json.loads(json.dumps(p.get_colors()))}

    def parser_file():
        p = target.LatexParser()
        t = target.TokenBuilder().build(p.parse_file(rng.choice([main, pathlib.Path(main)])))
        return {"tokens": target.dump(t), "color_map": json.loads(json.dumps(p.get_colors()))}
    out = {"file": lambda: proc(main), "path object": lambda: proc(pathlib.Path(main)), "process_file": lambda: proc(main, "process_file"), "parse_file": parser_file, "saved": lambda: saved(main), "relative": lambda: relative(main)}
    if not inc:
        out["string"] = string
    if ismain:
        out.update({"folder": lambda: proc(d), "folder/": lambda: proc(d + "/"), "process_folder": lambda: proc(rng.choice([d, pathlib.Path(d)]), "process_folder"),
                    "zip": lambda: proc(arch(".zip")), "tar.gz": lambda: proc(arch(".tar.gz")), "tgz": lambda: proc(arch(".tgz")), "compressed": lambda: proc(arch(rng.choice([".zip", ".tgz", ".tar.gz"])), "compressed"),
                    "relative folder": lambda: relative(d), "relative zip": lambda: relative(arch(".zip"))})
        if not inc:
            def gz():
                p = os.path.join(root, rng.choice(["one.gz", "one.tex.gz"]))
                with gzip.open(p, "wb") as f:
                    f.write(text.encode("utf-8"))
                return proc(p)
            out["gz"] = gz
    return out


def case(i, rng, obs, tier):
    root = os.path.join(flow.scratch(), "p36")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    old = tempfile.tempdir
    tempfile.tempdir = root
    try:
        if i % 2:
            agree(rng, obs)
        else:
            compare(rng, obs, root)
    finally:
        tempfile.tempdir = old


def compare(rng, obs, root):
    z = rng.random()
    files = {}
    if z < 0.35:
        g = project.ProjectGen(rng, {}, {"appendix": 1}, depth=3, richtable=True, richcode=True, split=rng.choice([0, 0.3]))
        t = g.blocks(rng.randrange(2, 7), top=True)[0]
        files["main.tex"] = "\\documentclass{article}\n\\begin{document}\n" + t + "\n\\end{document}\n"
        files.update(g.files)
    elif z < 0.7:
        files["main.tex"] = statedocs.text(rng, True, files)
    else:
        # (a byte order mark at the start of a file is no text)
        files["main.tex"] = fuzz.hostile(rng)[1][:3000].encode("utf-8", "replace").decode().lstrip("\ufeff")
        obs.count("hostile")
    inc = len(files) > 1 or "\\input" in files["main.tex"] or "\\include" in files["main.tex"]
    if any("\\documentclass" in t or "\\begin{document}" in t for n, t in files.items() if n.endswith(".tex") and n != "main.tex"):
        return
    CURRENT["input"] = files["main.tex"]
    rs = routes(rng, root, files, inc)
    names = list(rs)
    first = rs["file"]()
    for n in rng.sample(names[1:], min(len(names) - 1, 6)) + [n for n in ("string",) if n in rs]:
        got = rs[n]()
        obs.ev()
        obs.count("routes")
        obs.count("route:" + n)
        obs.seen("route", (n, files["main.tex"][:80]))
        d = norm.first_diff(first, got)
        if d:
            obs.fail("route", f"file vs {n}: {d}\n{files}", {"input": files["main.tex"]})
            return
    obs.sample({"routes": names, "input": files["main.tex"][:200]})


def agree(rng, obs):
    """a document without a preamble: the preprocessor changes nothing"""
    for _ in range(6):
        g = gen.Gen(rng, {}, {"appendix": 1}, depth=3, richtable=True, richcode=True, newlines=rng.random() < 0.7)
        t, nodes = g.blocks(rng.randrange(2, 9), top=True)
        if g.preamble:
            continue
        a, b = flow.observe(t, "plain"), flow.observe(t, "pre")
        obs.ev()
        obs.count("plain against preprocessed")
        obs.seen("shape", flow.shape(nodes))
        d = norm.first_diff(flow.full(a), flow.full(b))
        if d:
            obs.fail("preprocess", f"plain vs preprocessed: {d}\n{t}", {"input": t})


def plan(tier):
    return {"cases": 1600 if tier == "quick" else 40000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 60}
