"""Monitor for missing, unreadable and broken files: they cost nothing but
themselves."""
import json
import os
import pathlib
import re
import shutil

from .. import flow, gen, norm, project, target
from ..core import CURRENT

PROPERTY = "P33"
LEVEL = "exploration"
RULE = "distinct pairs of document shape and missing files"
ASSUMPTIONS = ["files that are missing, folders, dangling or circular links, empty or binary", "documents of the generated grammar"]
MIN_EVENTS = {"evaluations": 1000, "missing files": 3000, "facts": 20000, "missing targets": 300, "files that are there": 500}

GENS = [({"macro": 8, "unknown": 0}, {"userenv": 20}, {}, (2, 7)), ({"macro": 12, "unknown": 0}, {"userenv": 10, "list": 12, "table": 10, "quote": 6, "section": 10}, {"depth": 3}, (1, 5)),
        ({"macro": 8, "unknown": 0, "style": 12, "fn": 5}, {"userenv": 15, "figure": 10, "thm": 8}, {"newlines": False}, (2, 6))]


class Missing:
    def __init__(self, g, root):
        self.g, self.r, self.n, self.odd = g, g.rng, 0, {}

    def name(self, ext=""):
        r, g = self.r, self.g
        self.n += 1
        n = r.choice(["", "", "sub/", "../", "a/b/", "./", "x y/"]) + g.word() + r.choice(["", "", ext, ".v2"])
        if r.random() < 0.15 and not n.startswith(".."):
            self.odd[n] = r.choice(["dir", "loop", "dangling", "binary"]) if ext == ".tex" else r.choice(["dir", "dangling", "loop"])
            if self.odd[n] == "binary":
                self.odd[n] = "dir"
        if r.random() < 0.05:
            n = "/nonexistent/" + n.replace("../", "")
        return n

    def inclusion(self):
        c = self.r.choice(["\\input{%s}", "\\input{%s}", "\\include{%s}", "\\input {%s}", "\\input{ %s }"])
        return c % self.name(".tex")

    def inline(self, g, depth, styles):
        w = g.word()
        return w + self.r.choice([" ", "\n", " "]) + self.inclusion(), [("w", w, styles)]

    def block(self, g, depth):
        return "\n".join(self.inclusion() for _ in range(self.r.choice([1, 1, 2]))), []


def one(rng, obs, root):
    inline, block, opts, nb = rng.choice(GENS)
    split = rng.random() < 0.4
    g = (project.ProjectGen if split else gen.Gen)(rng, inline, block, **opts)
    m = Missing(g, root)
    g.macros.append(m.inline)
    g.envs.append(m.block)
    tex, nodes = g.blocks(rng.randrange(nb[0], nb[1] + 1), top=True)
    pre = rng.choice(["", "\\documentclass{article}\n", "\\documentclass{%s}\n" % m.name(".cls").replace("../", "")])
    bib = rng.random() < 0.3
    real, colors, entries = {}, [], []
    if pre:
        for _ in range(rng.randrange(0, 3)):
            names = [m.name().replace("../", "") for _ in range(rng.choice([1, 1, 3]))]
            if rng.random() < 0.3:
                # one of them is there
                n = rng.choice(["", "", "st/"]) + g.word().lower()
                colors.append(g.word().lower())
                real[n + ".sty"] = "\\definecolor{%s}{rgb}{1,0,.5}\n" % colors[-1]
                names.insert(rng.randrange(len(names) + 1), n)
            pre += "\\usepackage%s{%s}\n" % (rng.choice(["", "[x]"]), rng.choice([",", ",", ", ", ",\n"]).join(names))
        for _ in range(rng.choice([0, 0, 1])):
            pre += m.inclusion() + "\n"
        if rng.random() < 0.2:
            pre += "\\RequirePackage{%s}\n" % m.name().replace("../", "")
    end = ""
    if bib:
        names = [m.name(".bib") for _ in range(rng.choice([1, 2]))]
        for _ in range(rng.choice([0, 0, 1, 2])):
            n = rng.choice(["", "", "st/"]) + g.word().lower()
            ks = [(g.word(), g.word()) for _ in range(rng.randrange(1, 4))]
            real[n + ".bib"] = "\n".join("@%s{%s,\n title = {%s},\n year = {19%02d}\n}\n" % (rng.choice(["article", "book", "misc"]), k, t, rng.randrange(100)) for k, t in ks)
            x = rng.randrange(len(names) + 1)
            names.insert(x, n + rng.choice(["", ".bib"]))
        # every real file gives its entries, in the order of the list
        for n in names:
            b = real.get(n if n.endswith(".bib") else n + ".bib", "")
            entries += re.findall(r"@\w+\{(\w+),\n title = \{(\w+)\}", b)
        end = "\n\n\\bibliographystyle{%s}\n\\bibliography{%s}" % (m.name(), rng.choice([",", ",", ", ", ",\n"]).join(names))
    main = pre + "\\begin{document}\n" + tex + end + "\n\\end{document}\n"
    exp = [{"t": "document", "c": gen.expected(nodes)}]
    files = dict(getattr(g, "files", {}))
    files["main.tex"] = main
    files.update(real)
    shutil.rmtree(root, ignore_errors=True)
    top = os.path.join(root, "project")
    project.write(top, files)
    for n, k in m.odd.items():
        p = os.path.normpath(os.path.join(top, n))
        if os.path.lexists(p):
            continue
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if k == "dir":
                os.makedirs(p)
            elif k == "dangling":
                os.symlink("nowhere-at-all", p)
            else:
                os.symlink(os.path.basename(p), p)
        except OSError:
            pass
    CURRENT["input"] = repr(files)
    way = rng.choice(["file", "file", "folder", "zip"])
    target_path = os.path.join(top, "main.tex")
    if way == "folder":
        target_path = top
    elif way == "zip":
        target_path = os.path.join(root, "p.zip")
        project.make_zip(target_path, files, rng)
    reader = target.TexReader()
    res = reader.process(target_path, cleanup=True)
    js = json.loads(reader.to_json(res))
    got = flow.normal(js["tokens"])
    # the bibliography: the entries of the files that are there
    have = []
    for _, n in norm.walk(got):
        if isinstance(n, dict) and n["t"] in ("document", "section", "paragraph", "appendix"):
            for x in n["c"]:
                if isinstance(x, dict) and x["t"] == "bibliography":
                    have += [(b["key"], b["fields"].get("title")) for b in x["items"]]
            n["c"] = [x for x in n["c"] if not (isinstance(x, dict) and x["t"] == "bibliography")]
    obs.count("files that are there", len(real))
    if have != entries:
        obs.fail("entries", f"[{way}] bibliography {have} where the files hold {entries}\nodd files {m.odd}\n{main}", {"files": files, "odd": m.odd})
    if set(colors) - set(js["color_map"] or {}):
        obs.fail("package", f"[{way}] the colours {colors} of the packages that are there: {js['color_map']}\nodd files {m.odd}\n{main}", {"files": files, "odd": m.odd})
    e, o = flow.full(exp), flow.full(got)
    obs.ev()
    obs.count("missing files", m.n)
    obs.count("odd files", len(m.odd))
    obs.count("facts", flow.size(e))
    obs.count("way:" + way)
    obs.seen("shape", (flow.shape(exp), m.n, bool(m.odd)))
    obs.sample({"way": way, "input": main[:400]})
    d = norm.first_diff(e, o)
    if d:
        shown = "\n".join(f"--- {n} ---\n{t}" for n, t in files.items())
        obs.fail("missing", f"[{way}] {d}\nodd files {m.odd}\n{shown}", {"files": files, "odd": m.odd})


def nothing(rng, obs, root):
    """the input itself is missing: the documented error"""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "empty"))
    g = gen.Gen(rng)
    reader = target.TexReader()
    for meth in ("process", "process_file", "process_folder", "process_compressed"):
        n = g.word() + rng.choice(["", ".tex", ".zip", ".tar.gz", "/main.tex", "/x/y"])
        p = rng.choice([str, pathlib.Path])(os.path.join(root, n))
        CURRENT["input"] = f"{meth}({p!r})"
        obs.count("missing targets")
        try:
            getattr(reader, meth)(p)
            obs.fail("target", f"{meth} of a path that does not exist returns a result", {"method": meth})
        except FileNotFoundError:
            pass
        except Exception as e:
            obs.fail("target", f"{meth} of a path that does not exist raises {type(e).__name__}: {e}", {"method": meth})
    if os.listdir(root) != ["empty"]:
        obs.fail("target", f"processing a missing path created {os.listdir(root)}", {})


def case(i, rng, obs, tier):
    root = os.path.join(flow.scratch(), "p33")
    for k in range(2):
        one(rng, obs, root)
    nothing(rng, obs, os.path.join(flow.scratch(), "p33n"))


def worker_done(obs, tier):
    flow.drop_scratch()


def plan(tier):
    return {"cases": 3000 if tier == "quick" else 20000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
