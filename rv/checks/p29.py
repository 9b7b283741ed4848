"""Monitor for the front matter: title, authors, affiliations, abstract,
keywords, dates, wherever they are written and whatever stands around them."""
from .. import gen
from ..flow import MODES, full, judge

PROPERTY = "P29"
LEVEL = "exploration"
RULE = "distinct document shapes with front matter"
ASSUMPTIONS = ["the front matter commands of the standard classes, authblk and amsart", "documents of the generated grammar"]
MIN_EVENTS = {"evaluations": 2500, "front matter elements": 10000, "facts": 40000}

INL = {"verb": 0, "unknown": 0, "macro": 0, "href": 1, "hyperref": 0, "url": 0, "style": 8, "legacy": 3, "color": 1, "math": 4, "ref": 0, "cite": 0, "fn": 3, "esc": 2, "accent": 4, "group": 2}
PACKAGES = ["\\usepackage{amsmath}", "\\usepackage[utf8]{inputenc}", "\\usepackage{graphicx,hyperref}", "\\usepackage[margin=1in]{geometry}", "\\pagestyle{plain}",
            "\\setlength{\\parindent}{0pt}", "% a comment \\title{no}", "\\newcommand{\\zzunused}{zq}", "\\setcounter{page}{3}", "\\hypersetup{pdftitle={no}}"]


class Front:
    def __init__(self, g):
        self.g, self.r = g, g.rng

    def text(self, n=None, depth=1, ban=()):
        """one or more lines of text"""
        g, r = self.g, self.r
        t, a = g.inline(n or r.randrange(1, 6), depth, (), tuple(ban))
        while r.random() < 0.3:
            t2, a2 = g.inline(r.randrange(1, 4), depth, (), tuple(ban))
            t, a = t + r.choice([" \\\\ ", "\\\\", "\\\\[2pt] ", " \\\\\n"]) + t2, a + a2
        return t, a

    def thanks(self):
        t, a = self.g.inline(self.r.randrange(1, 4), 0, (), ("fn",))
        return self.r.choice(["\\thanks{%s}", "\\thanks {%s}", "\\footnote{%s}"]) % t, [("fn", a)]

    def person(self):
        t, a = self.text(ban=("fn",))
        r = self.r
        if r.random() < 0.3:
            x, y = self.thanks()
            t, a = t + x, a + y
        if r.random() < 0.2:
            m = str(r.randrange(1, 9))
            t, a = t + "$^{%s}$" % m, a + [("m", "^{%s}" % m)]
        if r.random() < 0.15:
            w = self.g.word()
            t, a = t + "\\textsuperscript{%s}" % w, a + [("w", w, ("superscript",))]
        if r.random() < 0.2:
            w = self.g.word()
            t, a = t + " \\\\ \\texttt{%s@x.org}" % w, a + [("w", x, ("monospace",)) for x in (w, "@", "x", ".", "org")]
        return t, a

    def opt(self, p=0.25):
        return "[%s]" % self.r.choice([self.g.word(), "1", "1,2", "a, b", ""]) if self.r.random() < p else ""

    def element(self, k):
        g, r = self.g, self.r
        if k == "title":
            t, a = self.text(ban=("fn",))
            if r.random() < 0.25:
                x, y = self.thanks()
                t, a = t + x, a + y
            return "\\title%s{%s}" % (self.opt(), t), [{"t": "title", "c": a}]
        if k == "author":
            people = [self.person() for _ in range(r.choice([1, 1, 2, 3, 5]))]
            t = people[0][0]
            for p, _ in people[1:]:
                t += r.choice([" \\and ", "\n\\and\n", " \\And ", " \\AND ", "\\and ", "\\and%s" % ("" if not p[0].isalpha() else "\n"), "\n\\and%\n", "\\and\t"]) + p
            return "\\author%s{%s}" % (self.opt(), r.choice(["%s", "\n%s\n", " %s "]) % t), [{"t": "author", "authors": [a for _, a in people], "c": []}]
        if k in ("affil", "affiliation", "address", "email"):
            t, a = self.text(ban=("fn",)) if k != "email" else (None, None)
            if k == "email":
                w = [g.word().lower() for _ in range(3)]
                t, a = "%s-%s@%s.org" % tuple(w), [("acc", "%s-%s@%s.org" % tuple(w), ())]
            return "\\%s%s{%s}" % (k, self.opt(), t), [{"t": {"affil": "affiliation"}.get(k, k), "c": a}]
        if k == "keywords":
            w = [g.word() for _ in range(r.randrange(1, 5))]
            s = r.choice([", ", "; ", " \\and ", ",\n"]).join(w)
            if r.random() < 0.3:
                s += r.choice([", $x_{1}$", ", \\textbf{z}", ", \\'etude", ", {q} r"])
            return "\\keywords{%s}" % s, [{"t": "keywords", "c": [("w", x, ()) for x in gen.norm.words(s)]}]
        if k == "abstract":
            if r.random() < 0.3:
                t, a = g.inline(r.randrange(2, 10), 2, (), ("verb", "unknown"))
                return "\\abstract{%s}" % t, [{"t": "abstract", "c": a}]
            t, c = g.blocks(r.randrange(1, 4), 1, gen.FLOATS)
            return "\\begin{abstract}\n%s\n\\end{abstract}" % t, [{"t": "abstract", "c": c}]
        if k == "date":
            return r.choice(["\\date{}", "\\date{\\today}", "\\date{%s 2020}" % g.word(), "\\date{\\textbf{%s} {x}}" % g.word()]), []
        if k == "maketitle":
            return r.choice(["\\maketitle", "\\maketitle\n", "\\maketitle{}"][:2]), []
        if k == "thanks":
            t, a = self.thanks()
            return t, a
        raise ValueError(k)

    def elements(self, kinds):
        out = [self.element(k) for k in kinds]
        self.g.stats["front"] = self.g.stats.get("front", 0) + len(out)
        return out


def document(g, r, mode):
    f = Front(g)
    head = ["title"] * r.choice([1, 1, 1, 0]) + ["author"] * r.choice([1, 1, 1, 2, 3, 0]) + ["date"] * r.choice([0, 1])
    for k in ("affil", "affiliation", "address", "email", "keywords"):
        head += [k] * r.choice([0, 0, 0, 1, 2])
    if r.random() < 0.4:
        r.shuffle(head)
    tail = ["abstract"] * r.choice([1, 1, 1, 0]) + ["keywords"] * r.choice([0, 0, 1])
    if r.random() < 0.2:
        tail.reverse()
    body, nodes = g.blocks(r.randrange(1, 6), top=True)
    k = r.randrange(4)
    sep = lambda: r.choice(["\n", "\n", "\n\n", ""])
    if k == 0:  # no document environment
        els = f.elements(head + ["maketitle"] * r.choice([0, 1]) + tail)
        tex = "".join(t + sep() for t, _ in els) + "\n" + body
        return tex, gen.expected([x for _, n in els for x in n] + nodes)
    pre, inside = (head, ["maketitle"] + tail) if k < 3 else ([], head + ["maketitle"] + tail)
    if k == 2:
        pre, inside = head[:1], head[1:] + ["maketitle"] * r.choice([0, 1]) + tail
    pre, inside = f.elements(pre), f.elements(inside)
    tex = "" if mode == "plain" else r.choice(["\\documentclass{article}\n", "\\documentclass[11pt,a4paper]{amsart}\n", ""])
    for t, _ in pre:
        if mode != "plain" and tex and r.random() < 0.4:
            tex += r.choice(PACKAGES) + "\n"
        tex += t + sep()
    tex += "\n\\begin{document}\n" + "".join(t + sep() for t, _ in inside) + "\n" + body + "\n\\end{document}\n"
    # one sequence of numbers through preamble and document
    exp = gen.expected([x for _, n in inside for x in n] + nodes)
    return tex, gen.expected([x for _, n in pre for x in n]) + [{"t": "document", "c": exp}]


def case(i, rng, obs, tier):
    for k in range(3):
        g = gen.Gen(rng, INL, {"table": 1, "figure": 1}, depth=2, newlines=rng.random() < 0.7)
        mode = rng.choice(MODES)
        tex, exp = document(g, rng, mode)
        obs.count("front matter elements", g.stats.get("front", 0))
        judge(obs, tex, exp, mode, full)


def plan(tier):
    return {"cases": 1500 if tier == "quick" else 30000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
