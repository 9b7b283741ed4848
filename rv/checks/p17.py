"""Conditional monitor: every conditional stands for its taken branch.  The taken
branch carries expected content; the other branch carries content of its own that
must leave no trace (text, numbers, labels, definitions, files)."""
from .. import flow, gen, norm
from ..flow import judge, wrap_document, full

PROPERTY = "P17"
LEVEL = "exploration"
RULE = "distinct shapes of documents with conditionals"
ASSUMPTIONS = ["the documented rule: the first branch is taken, except for \\iffalse; a switch set by \\newbool, \\booltrue or \\boolfalse counts for \\ifbool",
               "branches hold no verbatim text with \\else or \\fi", "no conditional inside a formula; around whole items only in documents that are preprocessed"]
MIN_EVENTS = {"evaluations": 500, "nontrivial": 400, "conditionals": 2000}


# take their branches as arguments
NOFI = ["ifbool", "notbool", "iftoggle", "ifdef", "ifundef", "ifcsdef", "ifcsundef", "ifdefempty", "ifdefvoid", "ifstrequal", "ifstrempty", "ifblank", "ifnumcomp",
        "ifdimcomp", "IfFileExists"]
FREE = ("\\iftrue", "\\iffalse")


class Conds:
    def __init__(self, r, mode):
        self.r, self.mode, self.switches, self.bools = r, mode, [], {}
        self.defs, self.n, self.level, self.dropped, self.cells = [], 0, 0, [], 0

    def name(self):
        r = self.r
        if self.switches and r.random() < 0.5:
            s = r.choice(self.switches) + r.choice("xyzt@")  # one switch name starts with another
        else:
            s = "".join(r.choice("bcdgklmnprsvwz") for _ in range(r.randrange(3, 6)))
            if r.random() < 0.15:
                s = r.choice(["@", s[0] + "@"]) + s
        return None if s in self.switches or s.startswith("f") or s in ("num", "dim", "cat", "odd", "def", "true") else s

    def setup(self, g):
        r = self.r

        def held(f):
            def inner(*a, **k):
                self.cells += 1
                try:
                    return f(*a, **k)
                finally:
                    self.cells -= 1
            return inner
        # cells that span others are converted after the rest of their table, captions are
        # written before what they stand below: no bool changes in there
        g.tabular, g.caption = held(g.tabular), held(g.caption)
        for _ in range(r.randrange(0, 5)):
            s = self.name()
            if s:
                self.switches.append(s)
        r.shuffle(self.switches)
        self.defs += ["\\newif\\if%s" % s for s in self.switches]
        if any("@" in s for s in self.switches) and r.random() < 0.7:
            self.defs.insert(0, "\\makeatletter")
        for _ in range(r.randrange(0, 4)):
            b = "q" + "".join(r.choice("bcdgklmnprsvwz") for _ in range(4)) + r.choice(["", "", "", "true", "false", " 2", ":x"])
            if b not in self.bools:
                self.bools[b] = False
                self.defs.append(r.choice(["\\newbool{%s}", "\\newbool{%s}", "\\providebool{%s}", "\\newbool {%s}"]) % b)
                if r.random() < 0.4:
                    self.defs.append(self.turn(b).strip())

    def turn(self, b=None):
        """a command that sets a bool, or leaves it as it is"""
        r = self.r
        b = b or r.choice(list(self.bools))
        k = r.randrange(6)
        sp = r.choice(["", "", "", " "])
        if k == 0:
            return "\\providebool%s{%s}" % (sp, b)
        self.bools[b] = v = r.random() < 0.5
        if k < 3:
            return "\\setbool%s{%s}%s{%s}" % (sp, b, sp, ("true" if v else "false"))
        return "\\bool%s%s{%s}" % ("true" if v else "false", sp, b)

    def head(self):
        """-> (opening, takes_first)"""
        r = self.r
        k = r.randrange(9)
        if k <= 1:
            return "\\iftrue", True
        if k <= 3:
            return "\\iffalse", False
        if k == 4 and self.switches:
            return "\\if" + r.choice(self.switches), True
        if k == 5:
            return r.choice(["\\ifpdf", "\\ifdraft", "\\ifanon", "\\ifmmode", "\\ifhmode"]), True
        if k == 6:
            return r.choice(["\\ifx\\a\\b", "\\ifx\\undefined\\foo", "\\ifdefined\\pdfoutput"]), True
        if k == 7:
            return r.choice(["\\ifnum1>0", "\\ifnum\\value{page}>1", "\\ifdim\\textwidth>1cm"]), True
        return "\\iftrue", True

    def wrap(self, g, taken, other, br=None, rows=False, then=None):
        """taken = (tex, nodes); other = tex of a dropped branch or None"""
        r = self.r
        g.stat("cond")
        br = br or (lambda: r.choice([" ", " ", "\n"]))
        t, nodes = taken
        k = r.randrange(7)
        sw = ""
        if self.switches and r.random() < 0.2:
            sw = "\\%s%s" % (r.choice(self.switches), r.choice(["true", "false"])) + br()
        if then is not None:
            b, first, sp = then
            a, c = (t, other) if first else (other, t)
            return sw + "\\%sbool%s{%s}%s{%s}%s{%s}" % (b[0], sp, b[1], sp, a or "", sp, c or ""), nodes
        if k == 1:
            return sw + "\\ifthenelse{%s}{%s}{%s}" % (r.choice(["\\equal{a}{b}", "\\value{page}>1", "\\boolean{mmode}"]), t, other or ""), nodes
        if k == 2 and self.mode != "file":
            return sw + "\\IfFileExists{%s}{%s}{%s}" % (r.choice(["logo.pdf", "x/y.sty"]), t, other or ""), nodes
        h, first = self.head()
        if self.level == 0 and self.mode != "plain" and other is not None and not rows:
            # what is not taken is not even looked at
            other = " ".join([self.junk(g) for _ in range(r.randrange(4))] + [other] + [self.junk(g) for _ in range(r.randrange(4))])
        fi = r.choice(["\\fi", "\\fi", "\\fi{}", "\\fi"])
        br0 = br

        def br(command="", text=""):
            # nothing between a command and what is no letter
            ok = command in ("", "\\else") or h in FREE or h[3:] in self.switches or h[1:].isalpha() and not text[:1].isdigit()
            if ok and text and not rows and not text[0].isspace() and not text[0].isalpha() and text[0] not in "@&" and r.random() < 0.5:
                return ""
            return br0()
        if other is None:
            if first:
                return sw + h + br(h, t) + t + br() + fi, nodes
            return sw + h + br() + "\\else" + br("\\else", t) + t + br() + fi, nodes
        a, c = (t, other) if first else (other, t)
        if first and r.random() < 0.1 and not rows:
            c = "7" + c
        return sw + h + br(h, a) + a + br() + "\\else" + br("\\else", c) + c + br() + fi, nodes

    def gone(self, g, other):
        """a conditional with nothing taken"""
        g.stat("cond")
        r = self.r
        return r.choice(["\\iffalse %s \\fi", "\\iffalse\n%s\n\\fi", "\\iffalse %s \\else\\fi", "\\iftrue\\else %s\\fi"]) % other

    def junk(self, g):
        """something in a dropped branch that would act if it were seen"""
        r = self.r
        w = g.word().lower()
        return r.choice(["\\newcommand{\\textbf}[1]{%s}" % w, "\\renewcommand{\\section}[1]{#1}", "\\input{nofile%s}" % w, "\\label{lost:%s}" % w, "\\appendix", "\\item",
                         "\\begin{itemize}", "\\end{itemize}", "\\end{document}", "\\definecolor{red}{rgb}{0,0,0}", "\\newtheorem{lemma}{Wrong}", "{", "}", "$", "\\iff", "&", "\\\\",
                         "\\begin{equation} x \\label{lost2}", "\\bibliography{no}", "\\usepackage{nopackage}", "\\floatname{algorithm}{Wrong}", "\\def\\emph#1{}", "\\verb|x|",
                         "\\newif\\ifneverused", "\\newif \\ifneverused", "\\newif\n\\ifneverused", "\\ifneverused\\fi", "\\iff{}", "\\ifthenelse{a}{b}{c}",
                         "\\%s{a}{b}{c}" % r.choice(NOFI), "\\@if%s{a}{b}{c}" % r.choice(["undefined", "classloaded", "packageloaded"]), "\\@ifstar{b}{c}", "\\@ifnextchar[{b}{c}",
                         "\\iftrue(\\else)\\fi", "\\iffalse[\\fi7", "\\find", "\\elsewhere", "\\let\\section=\\relax", "\\begin{document}", "\\title{Lost}", "\\section{Lost}", "\\tableofcontents", "``", "[", "]"])

    def other(self, g, make):
        r = self.r
        if r.random() < 0.3:
            return None
        saved = list(g.labels), g.appendix, dict(self.bools)
        t = make()
        g.labels, g.appendix, self.bools = saved
        return t

    def choice(self):
        """what an \\ifbool would take here"""
        r = self.r
        if not self.bools or r.random() > 0.3:
            return None
        b = r.choice(list(self.bools) + ["never declared"])
        neg = r.random() < 0.25
        return (("not" if neg else "if", b), self.bools.get(b, True) != neg, r.choice(["", "", "", " ", "\n"]))

    # hooks
    def inline(self, g, depth, styles):
        r = self.r
        if self.level > 5:
            w = g.word()
            return w, g.W(w, styles)
        self.level += 1
        try:
            if self.bools and not self.cells and r.random() < 0.1:
                w = g.word()
                return w + r.choice([" ", "\n"]) + self.turn(), g.W(w, styles)
            then = self.choice()
            one = lambda: g.inline(r.randrange(1, 4), depth - 1, styles, self.ban)
            o = self.other(g, lambda: one()[0])
            if r.random() < 0.12:
                w = g.word()
                t, c = w + " " + self.gone(g, o or g.word()), g.W(w, styles)
                if r.random() < 0.2:
                    w = r.choice("0379") + g.word()
                    t, c = t + w, c + g.W(w, styles)
                return t, c
            return self.wrap(g, one(), o, then=then)
        finally:
            self.level -= 1

    def block(self, g, depth):
        r = self.r
        if self.level > 5:
            return g.block("para", depth)
        self.level += 1
        try:
            if self.bools and not self.cells and r.random() < 0.12:
                return self.turn(), []
            then = self.choice()
            one = lambda: g.blocks(r.randrange(1, 3), depth - 1, gen.FLOATS + ("thm",) if depth < 2 else ())
            o = self.other(g, lambda: one()[0])
            if r.random() < 0.12:
                return self.gone(g, o or g.word()), []
            return self.wrap(g, one(), o, lambda: r.choice([" ", "\n", "\n\n"]), then=then)
        finally:
            self.level -= 1


GENS = [
    ({"macro": 12}, {"userenv": 12}, {}, (2, 7)),
    ({"macro": 30, "style": 12, "fn": 5, "group": 5}, {"userenv": 4, "section": 12, "table": 8, "figure": 8, "list": 10}, {}, (2, 6)),
    ({"macro": 5}, {"userenv": 30, "eq": 15, "section": 12, "thm": 10}, {"labels": 0.9}, (2, 6)),
    ({"macro": 20, "math": 20}, {"userenv": 5}, {"newlines": False}, (2, 8)),
]


def list_block(g, cs):
    """a list whose items are inside of conditionals"""
    r = g.rng
    name = r.choice(["itemize", "enumerate"])
    tex, items = [], []

    def item():
        t, c = g.inline(r.randrange(1, 4), 1, (), ("lead", "macro") + cs.ban)
        return "\\item " + t, {"t": "item", "c": c}
    for i in range(r.randrange(2, 6)):
        t, n = item()
        k = r.random()
        if k < 0.4:
            tex.append(t)
            items.append(n)
        elif k < 0.8:
            o = item()[0] if r.random() < 0.6 else None
            t, ns = cs.wrap(g, (t, [n]), o, lambda: "\n", True)
            tex.append(t)
            items += ns
        else:
            tex.append(t + "\n" + cs.gone(g, item()[0]))
            items.append(n)
    return "\\begin{%s}\n%s\n\\end{%s}" % (name, "\n".join(tex), name), [{"t": "list", "name": name, "c": items}]


def table_block(g, cs):
    r = g.rng
    nc = r.randrange(1, 4)
    tex, rows = [], []

    def row():
        cells = [g.inline(r.randrange(1, 3), 1, (), ("macro", "fn", "verb", "cell", "lead") + cs.ban) for _ in range(nc)]
        return " & ".join(c[0] for c in cells) + " \\\\", [(1, 1, c[1]) for c in cells]
    for i in range(r.randrange(2, 6)):
        t, cells = row()
        k = r.random()
        if k < 0.4:
            tex.append(t)
            rows.append(cells)
        elif k < 0.8:
            o = row()[0] if r.random() < 0.6 else None
            t, ns = cs.wrap(g, (t, [cells]), o, lambda: "\n", True)
            tex.append(t)
            rows += ns
        else:
            tex.append(t + "\n" + cs.gone(g, row()[0]))
            rows.append(cells)
    return "\\begin{tabular}{%s}\n%s\n\\end{tabular}" % ("l" * nc, "\n".join(tex)), [{"t": "tabular", "rows": rows, "c": []}]


def case(i, rng, obs, tier):
    for k in range(3):
        inline, block, opts, nb = GENS[(i * 3 + k) % len(GENS)]
        mode = flow.MODES[rng.randrange(3)]
        g = gen.Gen(rng, dict(inline, verb=0), dict(block, verbatim=0, diagram=0, algorithm=0), **opts)
        cs = Conds(rng, mode)
        cs.ban = ("verb",)
        cs.setup(g)
        g.macros.append(cs.inline)
        g.envs.append(cs.block)
        tex, nodes = [], []
        for _ in range(rng.randrange(nb[0], nb[1] + 1)):
            x = rng.random()
            if x < 0.08 and mode != "plain":
                t, n = list_block(g, cs)
            elif x < 0.16:
                t, n = table_block(g, cs)
            elif x < 0.3:
                # whole parts with headings, dropped or kept
                part = lambda: g.blocks(rng.randrange(1, 4), top=True)
                then = cs.choice()
                o = cs.other(g, lambda: part()[0])
                t, n = cs.wrap(g, part(), o, lambda: rng.choice(["\n", "\n\n"]), then=then)
            else:
                t, n = g.blocks(1, top=True)
            tex.append(t)
            nodes += n
        tex = "\n".join(cs.defs) + "\n" + "\n\n".join(tex)
        exp = gen.expected(nodes)
        obs.count("conditionals", g.stats.get("cond", 0))
        if rng.random() < 0.3:
            tex, exp = wrap_document(rng, tex, exp, mode)
        judge(obs, tex, exp, mode, full, lambda e: g.stats.get("cond", 0) > 1)


def plan(tier):
    return {"cases": 800 if tier == "quick" else 20000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
