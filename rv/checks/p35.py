"""Monitor for pictures and floats made of parts: every picture, diagram, page
selection, caption and part comes out once, in its place; sizes, positions and other
options leave no trace."""
from ..flow import DocCheck, full
from ..gen import lift

PROPERTY = "P35"
LEVEL = "exploration"
RULE = "distinct document shapes with floats made of parts"
ASSUMPTIONS = ["labels stand in captions or beside them, not in \\subfloat", "no brackets inside options", "documents of the generated grammar"]
MIN_EVENTS = {"evaluations": 2000, "pictures": 2500, "diagrams": 700, "parts": 2200, "facts": 25000}

W = ["3cm", "0.45\\textwidth", ".5\\linewidth", "\\columnwidth", "120pt", "\\dimexpr\\textwidth/2"]
OPT = ["width=2cm", "width=0.5\\textwidth, height=3cm", "scale=.3,angle=90", "trim={0 1cm 0 0},clip", "width=\\linewidth,keepaspectratio", "draft", "bb=0 0 10 20"]


def sp(r):
    return r.choice(["", "", "", "", " ", "\n"])


class Pictures:
    def __init__(self, g):
        self.g, self.r = g, g.rng
        self.pics = self.diagrams = self.parts = 0

    def name(self):
        r = self.r
        w = self.g.word().lower()
        return r.choice(["", "figs/", "../img/", "./a_b/", "a b/"]) + w + r.choice(["", "", ".png", ".pdf", ".eps", "-1.jpg", "_x.PNG"])

    def picture(self):
        r = self.r
        self.pics += 1
        f = self.name()
        n = {"t": "includegraphics", "tex": f, "c": []}
        k = r.randrange(12)
        if k == 0:
            o = "" if r.random() < 0.5 else sp(r) + "[%s]" % r.choice(OPT)
            return "\\begin{overpic}%s%s{%s}%s\\end{overpic}" % (o, sp(r), f, r.choice(["", "\n", "\n\\put(1,2){A}\n\\put (30,4) {\\large $x$}\n"])), [n]
        o = ""
        if k in (1, 2):
            p = r.randrange(1, 200)
            n["page"] = p
            o = "[%s]" % r.choice(["page=%d", "width=3cm,page=%d", "page=%d,scale=0.5", "width=\\linewidth, page=%d, clip"]) % p
        elif k < 8:
            o = "[%s]" % r.choice(OPT)
            if k == 3:
                o = "[%d,%d]" % (r.randrange(9), r.randrange(9)) + sp(r) + "[%d,%d]" % (r.randrange(99), r.randrange(99))
        pic = "\\includegraphics%s%s%s%s{%s}" % (r.choice(["", "", "", "*"]), sp(r), o, sp(r), f)
        if r.random() < 0.15:
            pic = r.choice(["\\centerline{%s}", "\\resizebox{\\textwidth}{!}{%s}", "\\fbox{%s}", "\\rotatebox{90}{%s}", "{%s}", "{\\centering %s}", "\\mbox{%s}", "\\raisebox{-2pt}{%s}"]) % pic
        return pic, [n]

    def pdf(self):
        r = self.r
        self.pics += 1
        f = self.name()
        n = {"t": "includepdf", "tex": f, "c": []}
        o = ""
        k = r.randrange(5)
        if k:
            p = r.choice(["%d" % r.randrange(1, 99), "1-%d" % r.randrange(2, 99), "-", "1,3-%d" % r.randrange(4, 9), "%d-" % r.randrange(9)])
            if k == 4:
                o = "[%s]" % r.choice(["nup=2x2", "landscape", "fitpaper,scale=.8"])
            else:
                p2 = p if "," not in p and r.random() < 0.5 else "{%s}" % p
                o = "[%s]" % r.choice(["pages=%s", "pages=%s,nup=1x2", "scale=0.9,pages=%s"]) % p2
                n["pages"] = p
        return "\\includepdf%s%s%s{%s}" % (sp(r), o, sp(r), f), [n]

    def diagram(self):
        r = self.r
        self.diagrams += 1
        g = self.g
        name = r.choice(["tikzpicture", "tikzpicture", "picture", "pgfpicture"])
        head = {"tikzpicture": r.choice(["", "", "[scale=%d]" % r.randrange(9), "[every node/.style={draw,circle}]"]),
                "picture": "(%d,%d)%s" % (r.randrange(99), r.randrange(99), r.choice(["", "(1,2)"])), "pgfpicture": "{0cm}{0cm}{%dcm}{1cm}" % r.randrange(9)}[name]
        lines = []
        for _ in range(r.randrange(1, 5)):
            lines.append(r.choice([
                "\\draw[->] (0,%d) -- (%d,1) node {%s};" % (r.randrange(9), r.randrange(9), g.word()),
                "\\node (%s) at (1,%d) {$x_%d \\to \\frac{a}{b}$};" % (g.word().lower(), r.randrange(9), r.randrange(9)),
                "\\put(%d,3){\\line(1,0){%d}}" % (r.randrange(9), r.randrange(9)),
                "\\foreach \\x in {0,%d,...,9} {\\draw (\\x,0) circle (2pt);}" % r.randrange(1, 5),
                "\\begin{scope}[xshift=%dcm]\n\\filldraw (0,0) rectangle (1,1);\n\\end{scope}" % r.randrange(9),
                "\\node[align=left] {%s \\\\ %s \\& \\textbf{%s} \\cite{k}};" % (g.word(), g.word(), g.word()),
                "\\matrix (m) [matrix of nodes] {%s & %s \\\\ 1 & 2 \\\\};" % (g.word(), g.word()),
                "\\section{%s} \\label{%s} \\caption{%s}" % (g.word(), g.key("d"), g.word()),
                "  \\path (0,0) edge[bend left=30] node[above] {%s} (1,1);" % g.word(),
            ]))
        body = head + "\n" + "\n".join(lines)
        if not head:
            body = "\n".join(lines)
        return "\\begin{%s}%s%s\n\\end{%s}" % (name, head and "" or "\n", body, name), [{"t": "diagram", "name": name, "tex": body.strip(), "c": []}]

    def content(self):
        return self.diagram() if self.r.random() < 0.25 else self.picture()

    def table(self):
        return self.g.tabular()

    def sub(self, kind):
        r = self.r
        self.parts += 1
        k = r.randrange(8)
        body, c = self.table() if kind == "table" else self.content()
        cap, cn = self.g.caption("sub")
        if k < 3:   # \subfloat, one caption at most, no labels
            self.g.in_opt = True
            t, a = self.g.inline(r.randrange(1, 4), 1, (), ("fn", "verb", "lead"))
            self.g.in_opt = False
            q = r.randrange(6)
            if q == 0:
                return "\\subfloat%s{%s}" % (sp(r), body), c
            if q == 1:
                return "\\subfloat[]%s{%s}" % (sp(r), body), c
            if r.random() < 0.1:
                t, a = self.g.bracketed()
            o = "[%s]" % self.g.word() + sp(r) if q == 2 else ""
            return "\\subfloat%s%s[%s]%s{%s}" % (sp(r), o, t, sp(r), body), [{"t": "caption", "c": a}] + c
        env = "sub" + kind
        if kind == "table" and k == 7:
            env = "subsubtable"
        s = {"t": "table" if kind == "table" else "subfigure", "c": []}
        parts = [(body, c)]
        q = r.random()
        if q < 0.8:
            if kind == "figure" and r.random() < 0.2:
                cap = cap.replace("\\caption", "\\subcaption", 1).replace("\\subcaption*", "\\subcaption")
            parts.insert(r.choice([1, 1, 1, 0]), (cap, cn))
        if r.random() < 0.2:
            parts.append(self.content())
        s["c"] = [x for p in parts for x in p[1]]
        lift(s)
        if q < 0.8 and r.random() < 0.3 and "labels" not in s:
            l, ll = self.g.label("sub")
            if ll:
                parts.append((l, []))
                s["labels"] = ll
        return "\\begin%s{%s}%s%s{%s}\n%s%s\n\\end{%s}" % (sp(r), env, sp(r) + r.choice(["[b]", "[t]", "[h]"]) if r.random() < 0.5 else "", "", r.choice(W), r.choice(["", "\\centering\n", "\\centering "]), r.choice(["\n", "\n", "\n\\hfill\n"]).join(p[0] for p in parts), env), [s]

    def float(self):
        r = self.r
        kind = r.choice(["figure", "figure", "figure", "table"])
        env, arg = kind + r.choice(["", "", "*"]), r.choice(["", "", "[h]", "[!htb]", "\n[t]"])
        if kind == "figure" and r.random() < 0.25:
            env = "wrapfigure"
            arg = sp(r) + r.choice(["", "[%d]" % r.randrange(20)]) + sp(r) + "{%s}" % r.choice("rlRLio") + sp(r) + r.choice(["", "", "[2pt]"]) + "{%s}" % r.choice(W)
        n = {"t": kind, "_num": kind}
        parts = []
        for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
            parts.append(self.sub(kind))
        if not parts or r.random() < 0.2:
            parts.append(self.table() if kind == "table" and r.random() < 0.7 else self.content())
        if r.random() < 0.85:
            parts.insert(r.choice([0, len(parts), len(parts), len(parts)]), self.g.caption(kind[:3]))
        if r.random() < 0.15:
            t, a = self.g.inline(r.randrange(1, 4), 1, (), ("fn", "verb", "lead"))
            parts.append((t, a))
        n["c"] = [x for p in parts for x in p[1]]
        lift(n)
        glue = r.choice(["\n", "\n", "\n\\hfill\n", "\n\\quad\n", " ", "\n\n", "%\n", "\n\\\\\n", "\n\\vspace{2mm}\n", "~"]) if parts[0][0] else "\n"
        if glue == "~":
            glue = " \\hspace{1em} "
        return "\\begin%s{%s}%s\n%s%s\n\\end{%s}" % (sp(r), env, arg, r.choice(["", "\\centering\n", "\\centering "]), glue.join(p[0] for p in parts), env), [n]

    def captionof(self):
        r = self.r
        kind = r.choice(["figure", "table"])
        t, a = self.g.inline(r.randrange(1, 4), 1, (), ("fn", "verb", "lead"))
        lt, ll = self.g.label("co")
        n = {"t": "caption", "title": [("w", kind, ())], "c": a}
        if ll:
            n["labels"] = ll
        o = r.choice(["", "", "[%s]" % self.g.word()])
        cap = "\\captionof%s{%s}%s%s%s{%s%s}" % (r.choice(["", "", "*"]), kind, sp(r), o, sp(r), t, lt if r.random() < 0.5 or not lt else "")
        if lt and lt not in cap:
            cap += lt
        body, c = self.table() if kind == "table" else self.content()
        parts = [(body, c), (cap, [n])]
        if r.random() < 0.3 and not cap.endswith(lt or "!"):
            parts.reverse()
        e, arg = r.choice([("center", ""), ("minipage", "{%s}" % r.choice(W)), ("minipage", "[t]{%s}" % r.choice(W)), ("minipage", "[t][4cm]%s[c]{%s}" % (sp(r), r.choice(W))), ("flushleft", "")])
        return "\\begin{%s}%s\n%s\n\\end{%s}" % (e, arg, "\n".join(p[0] for p in parts), e), [x for p in parts for x in p[1]]

    def block(self, g, depth):
        r = self.r
        k = r.random()
        if k < 0.1:
            return self.pdf()
        if k < 0.25:
            return self.content()
        if k < 0.3:
            return r.choice(["\\graphicspath{{figs/}{img/}}", "\\graphicspath {{figs/}}", "\\usetikzlibrary{arrows,positioning}", "\\pgfplotsset{compat=1.8, width=3cm}", "\\usepgfplotslibrary{groupplots}"]), []
        if k < 0.4 or g.opt["depth"] > depth:
            return self.captionof()
        return self.float()


_i = {"unknown": 0, "macro": 0}
_b = {"userenv": 16}
_mix = (_i, _b, {}, (2, 8))
_deep = (_i, dict(_b, list=10, quote=6, layout=8, thm=8), {"depth": 4}, (1, 4))
_head = (_i, dict(_b, section=16, paragraph=4, eq=6, figure=8, subfig=4, table=6), {}, (3, 10))
_cap = (dict(_i, style=12, legacy=4, color=5, math=10, group=5, cite=8, ref=8), {"userenv": 30, "section": 4}, {"labels": 0.8}, (2, 6))
_rich = (_i, dict(_b, table=10, longtable=5), {"richopt": 0.6, "spell": 0.15}, (1, 5))
_check = DocCheck(full, [_mix, _deep, _head, _cap, _rich], docs=3)
_last = []


def _prepare(g):
    p = Pictures(g)
    g.envs.append(p.block)
    _last.append(p)


_check.prepare = _prepare


def case(i, rng, obs, tier):
    _last.clear()
    _check.case(i, rng, obs, tier)
    for p in _last:
        obs.count("pictures", p.pics)
        obs.count("diagrams", p.diagrams)
        obs.count("parts", p.parts)


def plan(tier):
    return {"cases": 1200 if tier == "quick" else 30000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
