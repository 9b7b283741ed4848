"""Monitor for boxes and for text commands that only arrange their content: the
content comes out as if it stood there alone, the other arguments leave no trace;
saved boxes print what was saved last; numbers and fractions print their value."""
import decimal
import re

from .. import norm
from ..flow import DocCheck, full

PROPERTY = "P34"
LEVEL = "exploration"
RULE = "distinct document shapes with boxes in them"
ASSUMPTIONS = ["the content of a box has no white space at its borders", "boxes are saved at the top level, outside groups", "documents of the generated grammar"]
MIN_EVENTS = {"evaluations": 2500, "boxes": 6000, "saved boxes": 500, "boxes in formulas": 3000, "numbers": 2000, "facts": 40000}

LEN = ["2cm", "0pt", "0.5\\textwidth", "\\linewidth", "1.5em", "\\dimexpr\\textwidth-1cm", "3 in", "-2pt"]
COL = ["red", "blue!20", "zedcol", "white"]
MODEL = ["[rgb]{1,0,.5}", "[HTML]{FFAA00}", "[gray]{0.9}"]


def sp(r):
    return r.choice(["", "", "", "", " ", "\n"])


def opts(r, n, pool):
    k = r.randrange(n + 1)
    return "".join(sp(r) + "[%s]" % r.choice(pool if i == 0 else ["c", "l", "t", "r", "s", "b"]) for i in range(k))


def head(r, block=False):
    """the command and all its arguments but the content"""
    L = lambda: r.choice(LEN)
    k = r.randrange(20)
    if k == 0 and not block:
        return "\\mbox" + sp(r)
    if k == 1:
        return "\\%sbox" % r.choice("fhv") + sp(r)
    if k in (2, 3):
        return "\\%sbox%s%s" % (r.choice(["make", "frame"]), opts(r, 2, LEN), sp(r))
    if k in (4, 5):
        return "\\parbox%s%s{%s}%s" % (opts(r, 3, ["t", "c", "b"]) if r.random() < 0.5 else opts(r, 1, ["t", "b"]), sp(r), L(), sp(r))
    if k in (6, 7):
        return "\\raisebox%s{%s}%s%s" % (sp(r), L(), opts(r, 2, LEN[:3]), sp(r))
    if k in (8, 9):
        return "\\colorbox%s%s" % (r.choice(["{%s}" % r.choice(COL), "{%s}" % r.choice(COL), r.choice(MODEL)]), sp(r))
    if k in (10, 11):
        return "\\fcolorbox%s%s" % (r.choice(["{%s}{%s}" % (r.choice(COL), r.choice(COL)), "{%s} {%s}" % (r.choice(COL), r.choice(COL)), "[rgb]{1,0,0}{0,1,0}"]), sp(r))
    if k == 12:
        return "\\scalebox%s{%s}%s" % (sp(r), r.choice(["0.5", ".8", "2"]), r.choice(["", "[1.2]"]))
    if k in (13, 14):
        return "\\resizebox%s{%s}%s{%s}%s" % (r.choice(["", "", "*"]), L(), sp(r), r.choice(["!", "2cm", "!"]), sp(r))
    if k in (15, 16):
        return "\\rotatebox%s{%s}%s" % (r.choice(["", "", "[origin=c]", "[x=2mm,y=1mm]"]), r.choice(["90", "-45.5"]), sp(r))
    if k == 17:
        return "\\adjustbox{%s}%s" % (r.choice(["width=2cm", "max width=\\textwidth", "scale=0.5,center"]), sp(r))
    if k == 18:
        return "\\pbox{%s}%s" % (L(), sp(r))
    return "\\hbox to %s" % r.choice(["2cm", "\\hsize", "3 in", "\\textwidth"])


class Boxes:
    def __init__(self, g):
        self.g, self.r = g, g.rng
        self.n = self.saved_n = self.num_n = 0
        self.saved, self.math = {}, []

    def box(self, g, depth, styles, ban=()):
        r = self.r
        self.n += 1
        t, a = g.inline(r.randrange(1, 4), depth - 1, styles, ("verb", "lead") + tuple(ban))
        t = head(r) + "{%s}" % t
        k = r.random()
        if k < 0.12 and a and not ban:
            w = g.word()   # joined to what stands before
            return w + head(r) + "{%s}" % (v := g.word().lower()) + (u := g.word().lower()), [("acc", w + v + u, styles)]
        return t, a

    def number(self, g, depth, styles):
        r = self.r
        self.num_n += 1
        k = r.randrange(6)
        if k == 0:
            p = r.randrange(1, 4)
            x = "%s%d.%s" % (r.choice(["", "-"]), r.randrange(1000), "".join(r.choice("0123456789") for _ in range(r.randrange(1, 7))))
            o = r.choice(["round-precision=%d", "round-mode=places,round-precision=%d", "round-precision=%d,group-digits=false"]) % p
            v = decimal.Decimal(x).quantize(decimal.Decimal(1).scaleb(-p), rounding=decimal.ROUND_HALF_UP)
            return "\\num[%s]{%s}" % (o, x), [("acc", str(v), styles)]
        if k == 1:
            x = r.choice(["%d" % r.randrange(10 ** 6), "%d.%d" % (r.randrange(100), r.randrange(10 ** 4)), "1e%d" % r.randrange(9), "-3.50"])
            return "\\num%s{%s}" % (r.choice(["", "[group-separator=.]", " "]), x), [("acc", x, styles)]
        if k == 2:
            n = r.choice([r.randrange(1, 60), r.randrange(1, 4000)])
            return "\\romannumeral %d%s" % (n, ""), [("acc", roman(n), styles)]
        if k == 3:
            a, b = g.word(), g.word()
            return "\\citetext{%s%s%s}" % (a, r.choice([" ", "\n"]), b), [("w", a, styles), ("w", b, styles)]
        a, b = g.word(), g.word()
        if k == 4:
            return "\\texorpdfstring%s{%s}%s{%s}" % (sp(r), r.choice(["$x_1$", g.word(), "\\textbf{%s}" % g.word(), "\\ref{no}"]), sp(r), a), [("w", a, styles)]
        return "\\%s%s{%s}%s{%s}" % (r.choice(["frac", "nicefrac"]), sp(r), a, sp(r), b), [("w", a, styles), ("w", "/", styles), ("w", b, styles)]

    def use(self, g, depth, styles):
        r = self.r
        k = r.random()
        if k < 0.28 and self.saved:
            n = r.choice(list(self.saved))
            self.saved_n += 1
            return "\\usebox%s" % (r.choice(["{\\%s}", " {\\%s}", "{ \\%s }", "\\%s "]) % n), [a[:2] + (tuple(dict.fromkeys(styles + a[2])),) if a[0] in ("w", "acc") else a for a in self.saved[n]]
        if k < 0.5:
            return self.number(g, depth, styles)
        return self.box(g, depth, styles)

    def block(self, g, depth):
        r = self.r
        if depth == g.opt["depth"] and (not self.saved or r.random() < 0.4):
            return self.save(g)
        if depth <= 0:
            t, a = self.box(g, 2, ())
            return t, a
        self.n += 1
        k = r.random()
        if k < 0.4:
            t, c = g.tabular()
        elif k < 0.5:
            t, c = g.graphic()
        else:
            t, c = g.blocks(r.randrange(1, 3), depth - 1, ("table", "figure", "subfig", "algorithm", "longtable", "verbatim", "verb"))
        pad = r.choice(["", "\n", "%\n"]) if k >= 0.4 else r.choice(["", "\n"])
        return head(r, True) + "{" + pad.replace("%\n", "\n") + t + pad.replace("%\n", "\n") + "}", c

    def formula(self, g, depth):
        """a box in a formula: marks that `finish` turns into the box"""
        r = self.r
        self.math.append(head(r))
        k = r.randrange(6)
        if k < 3:
            t = g.math(max(0, depth - 1))
        elif k == 3:
            t = g.word() + r.choice(["", " " + g.word()])
        elif k == 4:
            t = "\x04%s\x04" % g.math(0)
        else:
            t = "%s $%s$%s" % (g.word(), r.choice("xyz"), r.choice(["", " " + g.word(), " or $%s$" % r.choice("uvw")]))
        return r.choice(["", "", "\\alpha", "x"]) + "\x01%d\x02%s\x03" % (len(self.math) - 1, t) + r.choice(["", "", "", "z"])

    def save(self, g):
        r = self.r
        new = ""
        if not self.saved or r.random() < 0.5:
            n = "zzb" + g.word()
            new = r.choice(["\\newsavebox{\\%s}\n", "\\newsavebox\\%s\n", "\\newbox\\%s\n"]) % n
        else:
            n = r.choice(list(self.saved))
        t, a = g.inline(r.randrange(1, 5), 1, (), ("verb", "lead", "macro"))
        self.saved[n] = a
        how = r.choice(["\\sbox{\\%s}{%s}", "\\sbox\\%s{%s}", "\\savebox{\\%s}{%s}", "\\savebox{\\%s}[3cm]{%s}", "\\savebox\\%s[3cm][c]{%s}", "\\setbox\\%s=\\hbox{%s}", "\\setbox\\%s = \\hbox{%s}", "\\setbox\\%s=\\vbox{%s}"])
        return new + how % (n, t), []


def roman(n):
    out = ""
    for v, s in ((1000, "m"), (900, "cm"), (500, "d"), (400, "cd"), (100, "c"), (90, "xc"), (50, "l"), (40, "xl"), (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")):
        while n >= v:
            out, n = out + s, n - v
    return out


_i = {"macro": 14, "unknown": 0}
_b = {"userenv": 14}
_mix = (_i, _b, {}, (2, 8))
_deep = (_i, dict(_b, list=12, quote=6, layout=8, thm=8), {"depth": 4}, (1, 4))
_tab = (_i, dict(_b, table=15, figure=10, longtable=5, subfig=3), {"depth": 2}, (1, 5))
_head = (_i, dict(_b, section=20, paragraph=6, eq=10), {}, (3, 10))
_style = (dict(_i, style=12, legacy=8, color=5, fn=5, group=5), _b, {"depth": 3}, (1, 5))
_check = DocCheck(full, [_mix, _deep, _tab, _head, _style], docs=3)
_last = []


MARK = re.compile("\x01(\\d+)\x02|[\x03\x04]")


def bare(x):
    """the expectation with the boxes of formulas taken away"""
    if isinstance(x, dict):
        return {k: bare(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(bare(v) for v in x)
    return norm.mtex(MARK.sub(" ", x)) if isinstance(x, str) and "\x02" in x else x


def _finish(g, tex, exp):
    b = g.boxes
    return MARK.sub(lambda m: b.math[int(m.group(1))] + "{" if m.group(1) else "$" if m.group() == "\x04" else "}", tex), bare(exp)


_check.finish = _finish


def _prepare(g):
    b = g.boxes = Boxes(g)
    if g.maybe(0.5):
        g.mathmacros.append(b.formula)
        g.wb["algorithm"] = 0  # pseudocode stays as it is written
    g.macros.append(b.use)
    g.envs.append(b.block)
    _last.append(b)


_check.prepare = _prepare


def case(i, rng, obs, tier):
    _last.clear()
    _check.case(i, rng, obs, tier)
    for b in _last:
        obs.count("boxes", b.n)
        obs.count("boxes in formulas", len(b.math))
        obs.count("saved boxes", b.saved_n)
        obs.count("numbers", b.num_n)


def plan(tier):
    return {"cases": 1200 if tier == "quick" else 30000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
