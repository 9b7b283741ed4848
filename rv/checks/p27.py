"""Package monitor: definitions in local packages and classes count like
definitions in the preamble."""
import os
import shutil

from .. import flow, gen, macros, mathtree, norm, project, target
from ..core import CURRENT

PROPERTY = "P27"
LEVEL = "exploration"
RULE = "distinct (package structure, document shape) pairs"
ASSUMPTIONS = ["packages lie in the folder of the document", "definitions of the packages are not conditional on options"]
MIN_EVENTS = {"evaluations": 400, "definitions": 2000, "packages": 800}

GENS = [
    ({"macro": 25, "word": 20}, {}, {}, (1, 5)),
    ({"macro": 15, "math": 20}, {"eq": 20}, {}, (1, 4)),
    ({"macro": 25}, {"list": 15, "thm": 10, "section": 15, "table": 10}, {}, (2, 6)),
]


class Pack:
    """writes definitions into a structure of packages"""

    def __init__(self, rng, g):
        self.r, self.g, self.files, self.n = rng, g, {}, 0
        self.dirs = rng.choice([[""], [""], ["", "style/"], ["sty/"]])

    def name(self):
        self.n += 1
        return self.r.choice(self.dirs) + self.r.choice(["my", "conf", "a-b_", "x."]) + self.g.word().lower() + str(self.n)

    def content(self, defs, depth, ext):
        """definitions -> text of a package, some of them in packages it loads"""
        r = self.r
        out = []
        if r.random() < 0.5:
            out.append("\\NeedsTeXFormat{LaTeX2e}\n\\Provides%s{%s}[2020/01/01 v1.0 %s]" % ("Class" if ext == ".cls" else "Package", self.g.word(), self.g.word()))
        i = 0
        while i < len(defs):
            n = r.randrange(1, 4)
            part = defs[i:i + n]
            i += n
            z = r.random()
            if depth and z < 0.25:
                out.append(self.load(part, depth - 1))
            elif z < 0.35:
                a = "zz@" + "".join(r.choice("abcd") for _ in range(4)) + "".join(chr(97 + int(c)) for c in str(self.n))
                self.n += 1
                out.append("\\makeatletter\n\\def\\%s{%s}\n%s\n\\makeatother" % (a, self.g.word(), "\n".join(part)))
            elif z < 0.45:
                out += ["% " + self.g.word() + " \\newcommand{\\" + self.g.word() + "}{x}", "\n".join(part) + " % comment"]
            elif z < 0.5 and depth:
                f = self.name() + r.choice([".sty", ".sty"])
                self.files[f] = "\n".join(part) + "\n"
                base = os.path.basename(f)
                self.files[base] = self.files.pop(f)
                out.append("\\input{%s}" % base)
            elif z < 0.6:
                out.append("\\AtBeginDocument{%s}" % "\n".join(part))
            elif z < 0.7:
                out.append("\\setlength{\\parskip}{1em}\n\\RequirePackage{amsmath,graphicx}\n" + "\n".join(part) + "\n\\pagestyle{empty}\n\\hyphenation{%s}" % self.g.word())
            elif z < 0.78:
                out.append("\\iftrue\n%s\n\\else\n\\def\\%s{no}\n\\fi" % ("\n".join(part), self.g.word()))
            elif z < 0.86:
                # the file is looked for next to the package, wherever the process runs
                other = "\\def\\%s{no}" % self.g.word()
                if depth and r.random() < 0.6:
                    f = "zz" + self.g.word() + r.choice([".sty", ".cfg", ".tex"])
                    self.files[f] = "\n"
                    out.append("\\IfFileExists{%s}{%s}{%s}" % (f, "\n".join(part), other))
                else:
                    out.append("\\IfFileExists{%s}{%s}{%s}" % ("zz" + self.g.word() + ".sty", other, "\n".join(part)))
            else:
                out.append(r.choice(["\n", "\n", "%\n", "\n\n"]).join(part))
        return "\n".join(out) + r.choice(["\n", "", "\n\\endinput\n"])

    def load(self, defs, depth, top=False):
        """-> command that loads packages with these definitions"""
        r = self.r
        k = r.randrange(1, min(3, len(defs)) + 1) if len(defs) > 1 else 1
        cut = sorted(r.sample(range(1, len(defs)), k - 1)) if k > 1 else []
        names = []
        for a, b in zip([0] + cut, cut + [len(defs)]):
            n = self.name()
            # packages find each other next to themselves
            if not top and r.random() < 0.75:
                n = os.path.basename(n)
            self.files[n + ".sty"] = None
            text = self.content(defs[a:b], depth if "/" not in n else 0, ".sty")
            self.files[n + ".sty"] = text
            names.append(n)
            if r.random() < 0.2:
                names.insert(r.randrange(len(names)), r.choice(["amsmath", "zzmissing", names[0]]))
        cmd = "\\usepackage" if top or r.random() < 0.3 else "\\RequirePackage"
        return "%s%s{%s}%s" % (cmd, r.choice(["", "", "[opt]", "[a=b,c]"]), r.choice([",", ", ", ",\n  "]).join(names), r.choice(["", "", "[2019/01/01]"]) if not top else "")


def case(i, rng, obs, tier):
    root = os.path.join(flow.scratch(), "p27")
    for k in range(3):
        one((i * 3 + k) % len(GENS), rng, obs, root)


def blank(d, body):
    """the same definition without its text"""
    if d.startswith("\\DeclarePaired"):
        return d
    assert d.endswith("{%s}" % body), d
    return d[:-len(body) - 1] + "}"


KINDS = "Theorem Lemma Corollary Definition Remark Example Proposition Conjecture lemma Note Proof".split()


def theorem(rng, g):
    """-> (definition, document use, what the document has to contain)"""
    n, t = "q" + g.word().lower() + "env", g.word()
    if rng.random() < 0.5:
        t = rng.choice(KINDS)
    star = rng.random() < 0.2
    d = "\\newtheorem%s{%s}%s{%s}%s" % ("*" if star else "", n, "" if star or rng.random() < 0.6 else "[theorem]", t, "" if star or rng.random() < 0.7 else "[section]")
    w = g.word()
    return d, "\\begin{%s}\n%s\n\\end{%s}" % (n, w, n), ("env", t, w)


def color(rng, g):
    n, w = g.word().lower(), g.word()
    v = rng.choice(["{rgb}{1,0,%.1f}" % rng.random(), "{HTML}{%06X}" % rng.randrange(1 << 24), "{gray}{0.%d}" % rng.randrange(1, 9), "{cmyk}{0,0,0.5,0.%d}" % rng.randrange(9)])
    return "\\definecolor{%s}%s" % (n, v), "\\textcolor{%s}{%s}" % (n, w), ("color", n, v)


def switch(rng, g):
    n, w = g.word().lower(), g.word()
    return "\\newif\\if%s" % n, "\\if%s %s\\fi" % (n, w), ("word", w)


def floatname(rng, g):
    n, w, t = "q" + g.word().lower(), g.word(), g.word()
    return "\\floatname{%s}{%s}" % (n, t), "\\begin{%s}\n%s\n\\end{%s}" % (n, w, n), ("env", t, w)


def one(kind, rng, obs, root):
    inline, block, opts, nb = GENS[kind]
    g = gen.Gen(rng, dict(inline, verb=0, unknown=0), dict(block, verbatim=0, diagram=0, algorithm=0), **opts)
    ms = macros.Macros(rng)
    ms.stars = False
    defs = []   # (definition, in a preamble it would be the same as this)
    for k in range(rng.randrange(1, 9)):
        m = ms.make(g, False)
        defs.append((ms.defs[-1], blank(ms.defs[-1], m.body), m.name))
    for k in range(rng.randrange(0, 5)):
        m = ms.make(g, True)
        defs.append((ms.defs[-1], blank(ms.defs[-1], m.body), m.name))
    g.macros.append(ms.inline_hook)
    g.mathmacros.append(ms.math_hook)
    tex, nodes = g.blocks(rng.randrange(nb[0], nb[1] + 1), top=True)
    uses, facts = [], []
    for _ in range(rng.randrange(4)):
        d, u, f = rng.choice([theorem, theorem, color, switch, floatname])(rng, g)
        defs.insert(rng.randrange(len(defs) + 1), (d, d, None))
        uses.append(u)
        facts.append(f)
    tex = "\n\n".join([tex] + uses)
    if rng.random() < 0.2:
        # the document gives a command of a package its own meaning
        m = rng.choice(ms.text)
        if not m.delim and m.nargs < 4:
            w = g.word()
            again = "\\renewcommand{\\%s}%s%s{%s}" % (m.name, "[%d]" % m.nargs if m.nargs else "", "[%s]" % m.default if m.default else "", w + "".join(" #%d" % (k + 1) for k in range(m.nargs)))
        else:
            again = ""
    else:
        again = ""
    p = Pack(rng, g)
    head, plain, i = [], [], 0
    cls = "article"

    def texts(part):
        return [ms.as_macros(d[0]) for d in part]

    if rng.random() < 0.4:
        n = rng.randrange(1, len(defs) + 1)
        cls = p.name()
        if rng.random() < 0.3:
            base = os.path.basename(p.name())
            d = os.path.dirname(cls)
            p.files[(d + "/" if d else "") + base + ".cls"] = p.content(texts(defs[:n]), 0, ".cls")
            p.files[cls + ".cls"] = "\\LoadClass[11pt]{%s}\n" % base
        else:
            p.files[cls + ".cls"] = rng.choice(["", "\\LoadClass{article}\n"]) + p.content(texts(defs[:n]), 2 if "/" not in cls else 0, ".cls")
        plain += [d[1] for d in defs[:n]]
        i = n
    while i < len(defs):
        n = rng.randrange(1, 6)
        if rng.random() < 0.8:
            head.append(p.load(texts(defs[i:i + n]), 2, True))
            plain += [d[1] for d in defs[i:i + n]]
        else:
            head.append("\n".join(texts(defs[i:i + n])))
            plain += [d[0] for d in defs[i:i + n]]
        i += n
    if rng.random() < 0.15 and p.files:
        # packages that load themselves or each other
        f = [x for x in p.files if x.endswith(".sty")]
        if f:
            x, y = rng.choice(f), rng.choice(f)
            p.files[x] = "\\RequirePackage{%s}\n" % os.path.basename(y)[:-4] + p.files[x]
    files = dict(p.files)
    opt = rng.choice(["", "[11pt,a4paper]", "[%\n 12pt]"])
    a = "\\documentclass%s{%s}\n%s\n%s\n\\begin{document}\n%s\n\\end{document}\n" % (opt, cls, "\n".join(head), again, ms.as_macros(tex))
    b = "\\documentclass{article}\n%s\n%s\n\\begin{document}\n%s\n\\end{document}\n" % (ms.as_macros("\n".join(plain)), again, ms.as_macros(tex))
    files["main.tex"] = a
    shutil.rmtree(root, ignore_errors=True)
    project.write(root, files)
    CURRENT["input"] = repr(files)
    res = target.convert_file(os.path.join(root, "main.tex"))
    na = mathtree.retree(flow.normal(res["tokens"]))
    nb_ = mathtree.retree(flow.observe(b, "file"))
    obs.ev()
    obs.count("definitions", len(defs))
    obs.count("packages", len(files) - 1)
    obs.count("declarations", len(facts))
    obs.seen("shape", (flow.shape(gen.expected(nodes)), len(files), cls != "article"))
    obs.sample({"files": {n: t[:150] for n, t in list(files.items())[:4]}})
    d = norm.first_diff(nb_, na, "$")
    shown = "\n".join(f"--- {n} ---\n{t}" for n, t in files.items())
    if d:
        obs.fail("package", f"declared in the preamble vs in packages: {d}\n{shown}\n--- preamble ---\n{b}", {"files": files})
        return
    # what packages declare is there, judged without the preamble form
    allw = str(flow.plain_words(na))
    for f in facts:
        if f[0] == "word":
            ok = f[1] in allw
        elif f[0] == "env":
            ok = any(isinstance(n, dict) and n.get("name") in (f[1], f[1].lower()) and f[2] in str(flow.plain_words(n["c"])) for _, n in norm.walk(na))
        else:
            ok = f[1] in (res["color_map"] or {})
        if not ok:
            obs.fail("declared", f"{f} declared in a package has no effect\n{shown}", {"files": files})


def worker_init(obs, tier):
    norm.mtex = lambda s: " ".join(s.split())


def plan(tier):
    return {"cases": 500 if tier == "quick" else 9000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
