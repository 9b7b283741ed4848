"""Monitor for what is handed out beside the tokens: the colour map, and the
JSON file written by save_to_json."""
import json
import os
import pathlib
import shutil

from .. import chars, flow, gen, norm, project, target
from ..core import CURRENT

PROPERTY = "P28"
LEVEL = "exploration"
RULE = "distinct pairs of document shape and colour history"
ASSUMPTIONS = ["colours declared by \\definecolor with name, model and value", "documents of the generated grammar"]
MIN_EVENTS = {"evaluations": 1200, "colours": 4000, "files written": 1200}

MODELS = {"rgb": lambda r: r.choice(["%.2f,%.2f,%.2f", "%.1f, %.1f, %.1f", ".%d,0,1"]) , "RGB": None, "HTML": None, "gray": None, "cmyk": None, "hsb": None, "named": None}


def value(r, m):
    f = lambda: r.choice(["%.2f" % r.random(), "0", "1", ".%d" % r.randrange(10)])
    sep = r.choice([",", ", "])
    if m == "RGB":
        return sep.join(str(r.randrange(256)) for _ in range(3))
    if m == "HTML":
        return "%06X" % r.randrange(1 << 24)
    if m == "gray":
        return f()
    if m == "named":
        return r.choice(["Red", "ForestGreen"])
    return sep.join(f() for _ in range(4 if m == "cmyk" else 3))


class Colours:
    def __init__(self, g):
        self.g, self.r, self.map, self.n = g, g.rng, {}, 0

    def name(self):
        r = self.r
        if self.map and r.random() < 0.25:
            return r.choice(list(self.map))
        return r.choice(["%s", "%s", "my-%s", "%s_1", "a%s", "link %s", "%s2"]) % self.g.word()

    def declare(self):
        r = self.r
        n, m = self.name(), r.choice(list(MODELS))
        v = value(r, m)
        self.map[n] = {"format": m, "value": v}
        self.n += 1
        sp = lambda: r.choice(["", "", "", " ", "\n"])
        return "\\definecolor%s{%s}%s{%s}%s{%s}" % (sp(), n, sp(), m, sp(), v)

    def ghost(self):
        """a declaration that is none"""
        n = self.g.word()
        d = "\\definecolor{%s}{rgb}{0,0,1}" % n
        k = self.r.randrange(4)
        if k == 0:
            return "%% %s\n" % d, []
        if k == 1:
            return "\\iffalse %s \\fi" % d, []
        if k == 2:
            return "\\begin{verbatim}\n%s\n\\end{verbatim}" % d, [{"t": "code", "tex": d, "c": []}]
        return "\\begin{comment}\n%s\n\\end{comment}" % d, []

    def use(self, g, depth, styles):
        r = self.r
        if not self.map or any(s.startswith("color=") for s in styles):
            return g.atom("word", depth, styles, ())
        n = r.choice(list(self.map))
        w = g.word()
        return r.choice(["\\textcolor{%s}{%s}", "{\\color{%s} %s}", "{\\color{%s}%s}"]) % (n, w), [("w", w, norm.sty(styles, ("color=" + n,)))]

    def block(self, g, depth):
        r = self.r
        if r.random() < 0.3:
            return self.ghost()
        d = self.declare()
        if depth > 0 and r.random() < 0.4:
            w = g.word()
            e, node = r.choice([("quote", {"t": "quote"}), ("center", None), ("lemma*", {"t": "math_env", "name": "lemma"}), ("itemize", {"t": "list", "name": "itemize"})])
            c = [("w", w, ())]
            if e == "itemize":
                return "\\begin{itemize}\n%s\n\\item %s\n\\end{itemize}" % (d, w), [dict(node, c=[{"t": "item", "c": c}])]
            return "\\begin{%s}\n%s %s\n\\end{%s}" % (e, d, w, e), ([dict(node, c=c)] if node else c)
        return d, []


def one(rng, obs, root):
    split = rng.random() < 0.3
    G = project.ProjectGen if split else gen.Gen
    g = G(rng, {"macro": 10, "color": 1, "unknown": 0}, {"userenv": 25, "list": 6, "verbatim": 1}, depth=2, newlines=rng.random() < 0.8, richaccent=True)
    col = Colours(g)
    g.envs.append(col.block)
    g.macros.append(col.use)
    pre = "".join(col.declare() + rng.choice(["\n", " ", "\n\n"]) for _ in range(rng.randrange(0, 4)))
    tex, nodes = g.blocks(rng.randrange(1, 8), top=True)
    if rng.random() < 0.3:
        exp = gen.expected(nodes)
        doc = pre + tex
    else:
        exp = [{"t": "document", "c": gen.expected(nodes)}]
        doc = rng.choice(["", "\\documentclass{article}\n\\usepackage{xcolor}\n"]) + pre + "\\begin{document}\n" + tex + "\n\\end{document}\n"
    files = dict(getattr(g, "files", {}))
    files["main.tex"] = doc
    shutil.rmtree(root, ignore_errors=True)
    project.write(root, files)
    CURRENT["input"] = repr(files)
    reader = target.TexReader()
    res = reader.process(os.path.join(root, "main.tex"))
    text = reader.to_json(res)
    data = json.loads(text)
    obs.ev()
    obs.count("colours", col.n)
    obs.seen("shape", (flow.shape(exp), len(col.map), col.n))
    obs.sample({"input": doc[:300], "colours": str(col.map)[:300]})
    shown = "\n".join(f"--- {n} ---\n{t}" for n, t in files.items())
    want = {n: dict(v, value="".join(v["value"].split())) for n, v in col.map.items()}
    have = {n: dict(v, value="".join(str(v.get("value")).split())) for n, v in (data["color_map"] or {}).items()}
    d = norm.first_diff(want, have, "color_map")
    if d:
        obs.fail("colours", f"{d}\n{shown}", {"files": files})
    d = norm.first_diff(flow.p_styles(exp), flow.p_styles(flow.normal(data["tokens"])))
    if d:
        obs.fail("coloured", f"{d}\n{shown}", {"files": files})
    if sorted(data) != ["color_map", "tokens"]:
        obs.fail("json", f"keys {sorted(data)}\n{shown}", {"files": files})
    # the file
    out = os.path.join(root, *rng.choice([["o.json"], ["new", "o.json"], ["a", "b c", "ü", "o.txt"]]))
    if rng.random() < 0.4:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        with open(out, "w") as f:
            f.write("x" * rng.choice([3, 100000]))
    reader.save_to_json(res, rng.choice([str, pathlib.Path])(out))
    obs.count("files written")
    with open(out, "rb") as f:
        raw = f.read()
    try:
        saved = json.loads(raw.decode("utf-8"))
    except ValueError as e:
        obs.fail("file", f"{e}: {raw[:500]!r}\n{shown}", {"files": files})
        return
    d = norm.first_diff(data, saved, "$")
    if d or raw.decode("utf-8") != text:
        obs.fail("file", f"saved file and to_json differ: {d}\n{shown}", {"files": files})
    if reader.to_json(res) != text:
        obs.fail("json", f"to_json after saving differs\n{shown}", {"files": files})


def case(i, rng, obs, tier):
    root = os.path.join(flow.scratch(), "p28")
    for k in range(2):
        one(rng, obs, root)


def worker_done(obs, tier):
    flow.drop_scratch()


def plan(tier):
    return {"cases": 4000 if tier == "quick" else 20000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
