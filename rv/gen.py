"""Seeded generator of LaTeX documents together with the normal form that their
conversion must have (see norm.py).  The expectation is written down while the
source is written; nothing in here calls the code under test.

Every word is a unique pseudo-word, so lost, duplicated, moved or mixed-up
content is always visible.
"""
import re
import string

from . import chars, layout, norm
from .norm import mtex

CONS = "bdfgklmnprstvz"
VOW = "aeiou"
BASIC_STYLES = {  # command -> recorded style
    "textbf": "bold", "textit": "italic", "emph": "italic", "textsl": "italic",
    "textsc": "small-caps", "texttt": "monospace", "textsf": "sans-serif",
    "underline": "underline", "textsuperscript": "superscript", "textsubscript": "subscript",
    "sout": "line-through", "textrm": "normal",
}
RARE_STYLES = {
    "textup": "normal", "texttiny": "xx-small", "textscriptsize": "x-small", "textfootnotesize": "small", "textsmall": "small",
    "textlarge": "large", "texthuge": "xx-large", "textoverline": "overline", "overline": "overline",
    "textstrikeout": "line-through", "uppercase": "uppercase", "lowercase": "lowercase", "textmd": "normal",
}
LEGACY = {"bf": "bold", "it": "italic", "em": "italic", "tt": "monospace", "sc": "small-caps",
          "sl": "italic", "sf": "sans-serif", "rm": "normal", "bfseries": "bold", "itshape": "italic",
          "ttfamily": "monospace", "scshape": "small-caps", "sffamily": "sans-serif",
          "large": "large", "Large": "large", "small": "small", "tiny": "xx-small",
          "footnotesize": "small", "scriptsize": "x-small", "huge": "xx-large",
          "rmfamily": "normal", "upshape": "normal", "slshape": "italic", "mdseries": "normal", "LARGE": "large", "Huge": "xx-large",
          "smaller": "small", "larger": "large"}
LEGACY_KINDS = [("bf", "it", "tt", "sc", "sl", "sf", "rm"), ("em",), ("bfseries", "mdseries", "bf"), ("itshape", "scshape", "slshape", "upshape", "it", "sl"), ("ttfamily", "sffamily", "rmfamily", "tt", "sf"),
                ("large", "Large", "small", "tiny", "footnotesize", "scriptsize", "huge", "LARGE", "Huge", "smaller", "larger")]
COLOR_MODELS = [("rgb", "1,0,0"), ("HTML", "FF00aa"), ("gray", "0.5"), ("RGB", "10, 20,30"), ("cmyk", "0,.1,1,0")]
COLORS = ["red", "blue", "green", "orange", "purple"]
THEOREMS = ["theorem", "lemma", "proposition", "corollary", "definition", "conjecture",
            "axiom", "example", "exercise", "remark", "observation"]
PLAIN_MATHENVS = ["proof", "notation", "solution", "note", "claim"]
EQ_ENVS = ["equation", "align", "gather", "multline", "eqnarray", "flalign", "dmath", "alignat"]

INLINE = {  # default weights
    "word": 30, "punct": 6, "style": 7, "legacy": 3, "color": 2, "math": 7, "pmath": 2, "ref": 3,
    "cite": 3, "url": 1, "href": 1, "hyperref": 1, "fn": 2, "verb": 1, "esc": 2, "unknown": 1,
    "accent": 2, "group": 1, "macro": 0, "lay": 0,
}
BLOCK = {
    "para": 30, "section": 8, "eq": 6, "list": 5, "table": 3, "figure": 3, "thm": 5, "quote": 2,
    "verbatim": 2, "layout": 2, "algorithm": 1, "subfig": 1, "diagram": 1, "userenv": 0,
    "paragraph": 2, "starred": 0, "longtable": 0, "comment": 0, "appendix": 0, "lay": 0, "unkenv": 0,
}


CODE_LINES = ["@W", "  @W", "\\section{@W}", "if @W: {", "$ @W $", "@W & b \\\\", "\\begin{@W}", "{@W}",
              "\\ref{@W}", "\\newcommand{\\@W}{z}", "\\textbf{@W}"]
CODE_RICH = ["% @W", "@W = 1 % @W", "", "", "    @W    @W", "\t@W", "    ", "} @W", "@W }{ \\end{@W}", "100\\% @W", "\\% @W", "%%@W%%", "#@W #1",
             "\\documentclass{@W}", "\\usepackage{@W}", "\\begin{document}", "\\input{@W}", "\\def\\@W#1{#1}", "$$ @W", "\\[ @W", "\\( @W",
             "``@W''", "`@W'", "--- @W", "~@W~", "\\cite{@W}", "\\label{@W}", "\\item @W", "\\verb|@W|", "\\'e@W", "\\@W", "@W\\", "@W \\\\ @W",
             "\\iftrue @W \\else", "\\fi @W", "é@W — ü", "<@W>&amp;", "\\caption{@W}", "\\let\\@W=\\relax", "\\begin{equation} @W", "\\end{tabular}", "\\end{itemize}", "\\begin{enumerate}", "\\end{document} @W", "\\end{quote}", "\\end{center}", "\\begin{theorem} @W", "@W, @W; @W!",
             "\\makeatletter", "\\newtheorem{@W}{X}", "\\today @W", "\\LaTeX", "\\vspace{1cm}@W", "\\url{@W%20}", "__@W__", "\\footnote{@W", "\\bf @W", "\\color{red}"]


class Gen:
    def __init__(self, rng, inline=None, block=None, **opt):
        self.rng = rng
        self.wi = dict(INLINE)
        self.wi.update(inline or {})
        self.wb = dict(BLOCK)
        self.wb.update(block or {})
        self.opt = {"depth": 2, "labels": 0.5, "newlines": True, "comments": 0.0,
                    "levels": {1: 5, 2: 3, 3: 2}, "star": 0.15, "chapter": 0, "subeq": True, "table": (5, 5), "richtable": False, "richunknown": False, "richcode": False, "unknowns": (), "richaccent": False, "envnames": (), "spell": 0.03, "richopt": 0.1}
        self.opt.update(opt)
        self.n = rng.randrange(1000)
        self.labels = []
        self.citekeys = []
        self.mathmacros = []  # callables (gen, depth) -> tex
        self.macros = []      # callables (gen, styles) -> (tex, atoms)
        self.envs = []        # user environments
        self.preamble = []
        self.stats = {}
        self.appendix = False
        self.in_opt = False

    # -- primitives ----------------------------------------------------
    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def pick(self, weights, ban=()):
        ks = [k for k, w in weights.items() if w > 0 and k not in ban]
        return self.rng.choices(ks, [weights[k] for k in ks])[0]

    def word(self):
        """unique pseudo-word"""
        self.n += 1 + self.rng.randrange(3)
        n, s = self.n, ""
        while n:
            n, r = divmod(n, len(CONS) * len(VOW))
            s += CONS[r % len(CONS)] + VOW[r // len(CONS)]
        s = self.rng.choice(["q", "x", "w", "j"]) + s[::-1] + self.rng.choice(["", "l", "n", "s"])
        # length-prefix makes concatenations of different words distinguishable
        if self.rng.random() < 0.15:
            s = s.capitalize()
        return s

    def key(self, prefix=""):
        r = self.rng
        sep = r.choice([":", "-", ".", "_", ""])
        return (prefix or r.choice(["sec", "eq", "fig", "x"])) + sep + self.word().lower() + r.choice(["", "1", "2-b"])

    def maybe(self, p):
        return self.rng.random() < p

    def sp(self):
        """white space between a command and its argument, or between arguments"""
        if self.opt["spell"] and self.rng.random() < self.opt["spell"]:
            return self.rng.choice([" ", " ", "\n", "  "]) if self.opt["newlines"] else " "
        return ""

    def note(self, n, bracket=True):
        """text of an optional argument, a link or an item label"""
        r = self.rng
        if not self.maybe(self.opt["richopt"]):
            w = [self.word() for _ in range(r.randrange(1, n + 1))]
            return " ".join(w), [("w", x, ()) for x in w]
        was, self.in_opt = self.in_opt, self.in_opt or bracket
        t, a = self.inline(r.randrange(1, n + 1), 1, (), ("fn", "verb", "cite", "hyperref", "href", "url", "unknown", "macro", "ref", "lay"))
        self.in_opt = was
        return t, a

    def bracketed(self):
        """text of an optional argument with brackets inside braces"""
        w, v, u = self.word(), self.word(), self.word()
        t, a = self.rng.choice([("{[%s]}" % w, ("[", w, "]")), ("{%s [%s]}" % (w, v), (w, "[", v, "]")), ("%s {[%s]} %s" % (w, v, u), (w, "[", v, "]", u)),
                                ("{[%s] {%s}}" % (w, v), ("[", w, "]", v)), ("{{[%s] %s}}" % (w, v), ("[", w, "]", v))])
        return t, [("w", x, ()) for x in a]

    def shortopt(self):
        """an optional short title, which is not shown"""
        return "[%s]" % (self.bracketed()[0] if self.opt["richopt"] and self.maybe(0.2) else self.word())

    def gap(self):
        """white space between two pieces of running text"""
        r = self.rng.random()
        if not self.opt["newlines"] or r < 0.75:
            return " "
        if self.opt["comments"] and r < 0.75 + self.opt["comments"]:
            return " % " + self.word() + " \\ref{no} } { $ \\begin{x}\n"
        return self.rng.choice(["\n", "  ", " \n ", "\t"])

    # -- mathematics ---------------------------------------------------
    def math(self, depth=2, align=False):
        r = self.rng
        out = []
        for _ in range(r.randrange(1, 4)):
            k = r.randrange(12)
            if self.mathmacros and not self.in_opt and r.random() < 0.35:
                out.append(r.choice(self.mathmacros)(self, depth))
            elif k < 3 or depth == 0:
                out.append(r.choice(string.ascii_lowercase) + r.choice(["", "", "^2", "_{" + r.choice("ijkmn") + "}", "'"]))
            elif k == 3:
                out.append("\\frac{%s}{%s}" % (self.math(depth - 1), self.math(depth - 1)))
            elif k == 4:
                out.append("\\sum_{i=1}^{%s} %s" % (r.choice("NMK"), self.math(depth - 1)))
            elif k == 5:
                out.append("\\left( %s \\right)" % self.math(depth - 1))
            elif k == 6:
                out.append(r.choice(["\\alpha", "\\beta", "\\gamma_1", "\\lambda", "\\infty"]))
            elif k == 7:
                out.append(r.choice(["\\mathbf{%s}", "\\mathcal{%s}", "\\sqrt{%s}", "\\hat{%s}", "\\bar{%s}", "\\mathrm{%s}", "\\operatorname{%s}",
                                     "\\boldsymbol{%s}", "\\mathbb{%s}", "{\\bf %s}", "\\sqrt[3]{%s}", "\\left|%s\\right|", "\\|%s\\|", "\\{%s\\}",
                                     "\\textcolor{red}{%s}", "%s\\%%", "\\underbrace{%s}_{n}", "\\big[%s\\big]"]) % r.choice("uvwXYZ"))
            elif k == 8:
                out.append(r.choice(["\\text{%s}", "\\text{ %s }", "\\textbf{%s}", "\\mathrm{%s}", "\\text{if $%s$}"]) % self.word())
            elif k == 9:
                out.append("\\begin{%s} %s & %s \\\\ %s & %s \\end{%s}" % (
                    (e := r.choice(["pmatrix", "cases", "bmatrix", "aligned", "split"])), self.math(0), self.math(0), self.math(0), self.math(0), e))
            elif k == 10:
                out.append(r.choice(["a<b", "x>0", "f(x,y)", "[0,1)", "n!", "a/b", "x'", "x^{-1}", "x_1^2", "x^{*}", "a^*", "T^\\ast", "u^{\\star}", "a\\!b", "a\\;b", "\\dots"]))
            else:
                out.append("%d" % r.randrange(1, 100))
            if self.in_opt and ("[" in out[-1] or "]" in out[-1]):
                out[-1] = r.choice(string.ascii_lowercase)
            out.append(r.choice([" + ", " - ", " = ", " \\leq ", " \\cdot ", "\\, ", " \\in "]))
        out.pop()
        return "".join(out)

    # -- inline --------------------------------------------------------
    def inline(self, n=None, depth=None, styles=(), ban=()):
        """-> (tex, atoms)"""
        r = self.rng
        depth = self.opt["depth"] if depth is None else depth
        n = n or r.randrange(2, 8)
        tex, atoms = [], []
        k = ""
        for i in range(n):
            last, k = k, "word" if i == 0 and ("lead" in ban or self.wi["lay"]) else self.pick(self.wi, ban)
            if depth <= 0 and k in ("style", "legacy", "color", "fn", "href", "hyperref", "group", "macro"):
                k = "word"
            t, a = self.atom(k, depth, styles, ban)
            if k == "punct" and tex:
                tex[-1] += t
            elif k == "word" and last == "lay" and BARE.search(tex[-1]) and self.maybe(0.2):
                # a command ends where a digit follows
                d = r.choice("0123456789")
                tex[-1] += d + t
                a = [("w", d + a[0][1], styles)]
            else:
                tex.append(t)
            atoms += a
        s = tex[0]
        for t in tex[1:]:
            s += self.gap() + t
        return s, atoms

    def W(self, word, styles):
        return [("w", word, styles)]

    def atom(self, k, depth, styles, ban):
        r = self.rng
        self.stat("inline:" + k)
        if k == "word":
            w = self.word()
            return w, self.W(w, styles)
        if k == "punct":
            p = r.choice([",", ".", ";", ":", "!", "?"])
            return p, self.W(p, styles)
        if k == "esc":
            p = r.choice(["&", "%", "#", "_", "$", "{", "}"])
            w = self.word()
            return "\\" + p + " " + w, self.W(p, styles) + self.W(w, styles)
        if k == "style":
            table = RARE_STYLES if self.maybe(0.12) else BASIC_STYLES
            c = r.choice(list(table))
            st = styles if table[c] in styles else styles + (table[c],)
            if table[c] in styles:
                return self.atom("word", depth, styles, ban)
            t, a = self.inline(r.randrange(1, 4), depth - 1, st, tuple(ban) + ("verb",))
            return "\\%s%s{%s}" % (c, self.sp(), t), a
        if k == "legacy":
            c = r.choice(list(LEGACY))
            if LEGACY[c] in styles:
                return self.atom("word", depth, styles, ban)
            first = c
            t, a = self.inline(r.randrange(1, 4), depth - 1, styles + (LEGACY[c],), tuple(ban) + ("lead", "verb"))
            last = c
            while self.maybe(0.25):
                # a later declaration of the same kind replaces this one
                c = r.choice(next(f for f in LEGACY_KINDS if last in f))
                if c == last or LEGACY[c] in styles:
                    break
                t2, a2 = self.inline(r.randrange(1, 4), depth - 1, styles + (LEGACY[c],), tuple(ban) + ("lead", "verb"))
                t, a, last = "%s \\%s %s" % (t, c, t2), a + a2, c
            return "{\\%s %s}" % (first, t), a
        if k == "color":
            c, mod = r.choice(COLORS), ""
            st = "color=" + c
            if self.maybe(0.15) and not self.in_opt:
                mod, c = r.choice(COLOR_MODELS)
                st, mod = "color={%s:%s}" % (mod, c), "[%s]" % mod
            if any(s.startswith("color=") for s in styles):
                return self.atom("word", depth, styles, ban)
            t, a = self.inline(r.randrange(1, 4), depth - 1, styles + (st,), tuple(ban) + ("lead", "verb"))
            if self.maybe(0.5):
                return "\\textcolor%s%s{%s}%s{%s}" % (self.sp(), mod, c, self.sp(), t), a
            return "{\\color%s%s{%s} %s}" % (self.sp(), mod, c, t), a
        if k == "group":
            t, a = self.inline(r.randrange(1, 4), depth - 1, styles, tuple(ban) + ("verb",))
            return "{%s}" % t, a
        if k in ("math", "pmath"):
            m = self.math()
            if self.opt["newlines"] and self.maybe(0.1):
                m = m.replace(" ", "\n", 1)
            return ("$%s$" if k == "math" else "\\(%s\\)") % m, [("m", mtex(m))]
        if k == "ref":
            c = r.choice(["ref", "eqref", "autoref", "pageref", "cref", "Cref", "ref*"])
            if self.maybe(0.1):
                c = r.choice(["autoref*", "pageref*", "cref*", "Cref*"])
            keys = self.again([self.refkey() for _ in range(r.randrange(1, 4) if c[1:4] == "ref" else 1)])
            return "\\%s%s{%s}" % (c, self.sp(), self.keylist(keys)), [("ref", tuple(keys), None)]
        if k == "hyperref":
            key = self.refkey()
            t, a = self.note(2, False)
            return "\\hyperref%s[%s]%s{%s}" % (self.sp(), key, self.sp(), t), [("ref", (key,), tuple(a))]
        if k == "cite":
            c = r.choice(["cite", "citep", "citet", "citealt", "citealp", "citeauthor", "citeyear"])
            if self.maybe(0.12):
                c = r.choice(["citenum", "citeyearpar", "citefullauthor", "citet*", "citep*", "citealt*", "citealp*", "citeauthor*", "cite*"])
            keys = self.again([self.citekey() for _ in range(r.randrange(1, 4))])
            notes, title = "", None
            if self.maybe(0.3) and "cell" not in ban:
                t, a = self.bracketed() if self.opt["richopt"] and not self.in_opt and self.maybe(0.06) else self.note(2)
                notes, title = self.sp() + "[" + t + "]", tuple(a)
                if self.maybe(0.4):
                    v = self.word()
                    notes += self.sp() + "[" + v + "]"
                    title += (("w", ",", ()), ("w", v, ()))
            return "\\%s%s%s{%s}" % (c, notes, self.sp(), self.keylist(keys)), [("cite", tuple(keys), title)]
        if k == "url":
            u = self.url()
            return "\\url%s{%s}" % (self.sp(), u), [("url", u, None)]
        if k == "href":
            u = self.url()
            t, a = self.inline(r.randrange(1, 3), 0, (), tuple(ban) + NOBLOCKY)
            return "\\href%s{%s}%s{%s}" % (self.sp(), u, self.sp(), t), [("url", u, tuple(a))]
        if k == "fn":
            t, a = self.inline(r.randrange(1, 5), depth - 1, (), tuple(ban) + ("fn", "verb"))
            return "\\footnote%s%s{%s}" % ("[%d]" % r.randrange(20) if self.opt["richopt"] and self.maybe(0.1) else "", self.sp(), t), [("fn", a)]
        if k == "verb":
            w = self.word()
            d = r.choice("|!+/=@;?")
            bodies = ["@W", "@W\\foo", "@W{", "\\@W", "x_@W^2", "a & @W", "$@W"]
            if self.opt["richcode"]:
                bodies += ["% @W", "@W %", "}@W", "a\\%@W", "\\begin{@W}", "#1@W", "``@W", "~@W--", "\\'@W", "@W\\\\", "\\[@W", "$$@W$", "a  @W",
                           "\\section{@W}", "\\ref{@W}", "\\\\@W", "\\newcommand{\\@W}{z}", "<@W>", "\\end{itemize}@W", "\\end{document}", "\\begin{quote}@W",
                           "\\item@W", "\\item @W", "\\item[@W", "\\begin{itemize}@W", "\\end{itemize} @W", "\\begin{verbatim}@W", "\\end{verbatim}@W", "\\caption{@W}"]
            body = r.choice(bodies).replace("@W", w)
            if self.opt["richcode"] and self.maybe(0.4):
                d = r.choice([x for x in "0123456789_\"'`.,:-()[]<>&#^~$" if x not in body])
            return "\\verb%s%s%s%s" % (r.choice(["", "", "*"]) if self.opt["richcode"] else "", d, body, d), [("code", body)]
        if k == "unknown":
            c = "zz" + "".join(r.choice(string.ascii_lowercase) for _ in range(5))
            w = self.word()
            nest = False
            if self.opt["richunknown"]:
                w = " ".join(r.choice(["%s", "%s", "$%s_1$", "\\textbf{%s}", "\\cite{%s}", "{%s}", "\\zzin{%s}", "\\ref{%s}, x", "(%s)", "$a + \\text{%s}$", "\\emph{%s $x$}", "\\url{http://%s.org}", "x\\\\'o%s", "x \\\\alpha %s"])
                             % self.word() for _ in range(r.randrange(1, 4)))
                nest = self.maybe(0.15)
            if self.opt["unknowns"]:
                if self.maybe(0.6):
                    c = r.choice(self.opt["unknowns"]) + r.choice(["zq", "qz", "Zq", "xzq", "QZ", "zzqj"])
                elif self.maybe(0.3):
                    c = r.choice(["z", "q", "Z"]) + c.capitalize()
                if nest:
                    # the same command, or one that begins like it, in its own argument
                    w = "%s \\%s%s{%s} %s" % (self.word(), c, r.choice(["", "", "z"]), self.word(), self.word())
                star = "*" if self.maybe(0.15) else ""
                k = r.randrange(10)
                v = self.word()
                if k == 0:
                    return "\\%s%s %s" % (c, star, v), [("cmd", "\\" + c + star, None)] + self.W(v, styles)
                if k == 1 and "cell" not in ban:
                    p = r.choice([",", ".", ";", ":", "?", ")", "/", "-", "=", "'", "1", "+"])
                    return "\\%s%s%s %s" % (c, star, p, v), [("cmd", "\\" + c + star, None)] + self.W(p, styles) + self.W(v, styles)
                if k == 2:
                    return "\\%s{}" % c, [("cmd", "\\" + c, "{}")]
                if k == 3:
                    return "\\%s{%s}{%s}" % (c, w, v), [("cmd", "\\" + c, "{%s}" % w)] + self.W(v, styles)
                if k == 4:
                    return "\\%s\\textbf{%s}" % (c, v), [("cmd", "\\" + c, None)] + self.W(v, norm.sty(styles, ("bold",)))
                if k == 5:
                    return "\\%s$%s$" % (c, v), [("cmd", "\\" + c, None), ("m", v)]
                if k == 6:
                    u = self.word()
                    return "%s\\%s{%s}%s" % (u, c, w, v), self.W(u, styles) + [("cmd", "\\" + c, "{%s}" % w)] + self.W(v, styles)
                return "\\%s%s{%s}" % (c, star, w), [("cmd", "\\" + c + star, "{%s}" % w)]
            return "\\%s{%s}" % (c, w), [("cmd", "\\" + c, "{%s}" % w)]
        if k == "accent" and self.opt["richaccent"] and self.maybe(0.06):
            n = r.choice([r.randrange(1, 50), r.randrange(1, 4000)])
            tex, txt = "\\romannumeral%s%d" % (r.choice([" ", " ", "", "  "]), n), chars.roman(n)
            q = r.randrange(6)
            if q == 0:
                return r.choice(["\\uppercase{%s}", "\\uppercase\\expandafter{%s}", "\\uppercase\\expandafter{%s\\relax}"]) % tex, [("acc", txt, norm.sty(styles, ("uppercase",)))]
            p = r.choice(",.;:)") if q < 4 else ""
            return tex + p, [("acc", txt + p, styles)]
        if k == "accent" and self.opt["richaccent"]:
            tex, txt = "", ""
            w = "" if "lead" in ban else self.word().lower() if self.maybe(0.7) else ""
            tex, txt = w, w
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                a, b = (chars.accented if self.maybe(0.6) else chars.symbol)(r)
                tex, txt = tex + a, txt + b
                if a.endswith(" ") or self.maybe(0.6):
                    w = self.word().lower()
                    tex, txt = tex + w, txt + w
            return tex, [("acc", txt, styles)]
        if k == "accent":
            a, b = r.choice([("\\'e", "é"), ("\\'{e}", "é"), ('\\"o', "ö"), ("\\^{a}", "â"), ("\\`{u}", "ù"),
                             ("\\c{c}", "ç"), ("\\~n", "ñ"), ("\\v{s}", "š"), ("\\={a}", "ā"), ("\\r{a}", "å"),
                             ("\\H{o}", "ő"), ("\\k{a}", "ą"), ("\\u{g}", "ğ"), ("\\.{z}", "ż"), ("\\d{t}", "ṭ")])
            w1, w2 = self.word(), self.word().lower()
            return w1 + a + w2, [("acc", w1 + b + w2, styles)]
        if k == "lay":
            return layout.vary(r, r.choice(layout.INLINE)), []
        if k == "macro":
            return r.choice(self.macros)(self, depth, styles)
        raise ValueError(k)

    def again(self, keys):
        """a list of keys that sometimes names one of them again"""
        if len(keys) > 1 and self.maybe(0.1):
            keys.insert(self.rng.randrange(len(keys) + 1), self.rng.choice(keys))
        return keys

    def keylist(self, keys):
        r = self.rng
        if self.maybe(0.85):
            return r.choice([",", ", "]).join(keys)
        s = r.choice([" , ", ",  ", ",\n", ",\n\t", " ,", ",\t"]).join(keys)
        s = r.choice(["%s", "%s", " %s", "%s ", "\n%s\n"]) % s
        return s if self.opt["newlines"] else s.replace("\n", " ")

    def url(self):
        r = self.rng
        return r.choice(["http", "https"]) + "://" + self.word().lower() + ".org/" + r.choice(
            ["", "a_b", "~u/x", "p?q=1&r=2", "x-y.html", "d/e/f", "a%20b", "%E2%82", "x#y", "v=1;w:2", "a+b,c@d", "$x$", "^a", "x'y", "(z)", "w=--1"]) + self.word().lower()

    def refkey(self):
        if self.labels and self.maybe(0.6):
            return self.rng.choice(self.labels)
        return self.key()

    def citekey(self):
        if self.citekeys and self.maybe(0.8):
            return self.rng.choice(self.citekeys)
        return self.word().lower() + str(self.rng.randrange(1900, 2030))

    def label(self, prefix):
        """-> (tex, [label]) possibly empty"""
        if not self.maybe(self.opt["labels"]):
            return "", []
        k = self.key(prefix)
        self.labels.append(k)
        return "\\label%s{%s}" % (self.sp(), k), [k]

    # -- blocks --------------------------------------------------------
    def blocks(self, n, depth=None, ban=(), top=False):
        depth = self.opt["depth"] if depth is None else depth
        tex, nodes = [], []
        for _ in range(n):
            b = tuple(ban)
            if not top:
                b += ("section", "paragraph", "appendix")
            if depth <= 0:
                b += ("list", "thm", "quote", "layout", "userenv", "unkenv", "table", "figure", "subfig", "algorithm")
            k = self.pick(self.wb, b)
            t, nn = self.block(k, depth, ban)
            tex.append(t)
            nodes += nn
        return ("\n\n" if self.opt["newlines"] else " ").join(tex), nodes

    def block(self, k, depth, ban=()):
        r = self.rng
        self.stat("block:" + k)
        nested = depth < self.opt["depth"]
        if k == "para":
            return self.inline(r.randrange(3, 12), 2, (), tuple(b for b in ban if b in NOINL))
        if k == "section":
            lws = self.opt["levels"]
            lv = r.choices(list(lws), list(lws.values()))[0]
            star = self.maybe(self.opt["star"])
            t, a = self.inline(r.randrange(1, 5), 1, (), ("verb",) if self.maybe(self.opt["richopt"]) else ("fn", "verb", "cite", "unknown", "href"))
            lt, ll = self.label("sec")
            n = {"t": "section", "level": lv, "title": a, "c": [], "_star": star}
            if ll:
                n["labels"] = ll
            opt = self.shortopt() if self.maybe(0.08) else ""
            cmd = "part" if lv == 0 else "chapter" if lv == 1 and self.maybe(self.opt["chapter"]) else "sub" * (lv - 1) + "section"
            return "\\%s%s%s%s%s{%s}%s%s" % (cmd, "*" if star else "", self.sp(), opt, self.sp(), t, r.choice(["", "\n", " "]) if lt else "", lt), [n]
        if k == "appendix":
            if self.appendix:
                return self.block("para", depth, ban)
            self.appendix = True
            return "\\appendix", [{"t": "appendix", "c": []}]
        if k == "paragraph":
            lv = r.choice([1, 1, 2])
            t, a = self.inline(r.randrange(1, 4), 0, (), NOBLOCKY)
            return "\\%sparagraph%s{%s}" % ("sub" * (lv - 1), r.choice(["", "", "", "*", self.shortopt()]), t), [{"t": "paragraph", "level": lv, "title": a, "c": []}]
        if k == "eq":
            return self.equation()
        if k == "list":
            name = r.choice(["itemize", "enumerate", "description"])
            items, tex = [], []
            for _ in range(r.randrange(1, 5)):
                it = {"t": "item"}
                o = ""
                if self.maybe(0.6 if name == "description" else 0.15):
                    if self.maybe(0.08):
                        # brackets inside
                        w = self.word()
                        o = r.choice(["{[%s]}", "{[%s]}", "[%s]"]) % w
                        it["title"] = [("w", x, ()) for x in ("[", w, "]")]
                    else:
                        o, it["title"] = self.note(2)
                    o = self.sp() + "[%s]" % o
                lt, ll = self.label("it") if self.maybe(0.3) else ("", [])
                if ll:
                    it["labels"] = ll
                if o and self.maybe(0.06):
                    # nothing but a label
                    it["c"] = []
                    items.append(it)
                    tex.append("\\item%s %s%s" % (o, lt + " " if lt else "", r.choice(["", "", "%% %s" % self.word()])))
                    continue
                t, c = self.inline(r.randrange(1, 6), 2, (), tuple(b for b in ban if b in NOINL) + ("lead",))
                if depth > 0 and self.maybe(0.25):
                    t2, c2 = self.blocks(1, depth - 1, tuple(ban) + FLOATS)
                    t, c = t + "\n" + t2, c + c2
                    if self.maybe(0.5):
                        w = self.word()
                        t, c = t + "\n" + w, c + [("w", w, ())]
                gap = " "
                if not lt and c and isinstance(c[0], tuple) and c[0][0] == "w" and c[0][1].isalpha() and t.startswith(c[0][1]) and self.maybe(0.08):
                    # directly after the command
                    d = r.choice("0123456789")
                    t, c, gap = d + t, [("w", d + c[0][1], c[0][2])] + c[1:], ""
                it["c"] = c
                items.append(it)
                tex.append("\\item%s%s%s%s" % (o, gap, lt + " " if lt else "", t))
            return "\\begin%s{%s}%s\n%s\n\\end%s{%s}" % (self.sp(), name, r.choice(["[label=(\\alph*)]", "[leftmargin=*,itemsep=0pt]", "[noitemsep]"]) if self.opt["richopt"] and self.maybe(0.15) else "", "\n".join(tex), self.sp(), name), [
                {"t": "list", "name": name, "c": items}]
        if k == "table":
            env = r.choice(["table", "table", "table*"])
            cap, cn = self.caption("tab")
            tt, tn = self.tabular()
            parts = [(cap, cn), (tt, tn)]
            r.shuffle(parts)
            pre = r.choice(["", "\\centering\n"])
            n = {"t": "table", "_num": "table", "c": [x for p in parts for x in p[1]]}
            lift(n)
            return "\\begin{%s}%s\n%s%s\n\\end{%s}" % (
                env, r.choice(["", "[h]", "[htbp]"]), pre, "\n".join(p[0] for p in parts), env), [n]
        if k == "longtable":
            return self.tabular()
        if k == "figure":
            env = r.choice(["figure", "figure", "figure*"])
            parts = [self.graphic(), self.caption("fig")]
            if self.maybe(0.3):
                parts.insert(1, self.graphic())
            if self.maybe(0.3):
                parts.reverse()
            n = {"t": "figure", "_num": "figure", "c": [x for p in parts for x in p[1]]}
            lift(n)
            return "\\begin{%s}%s\n%s%s\n\\end{%s}" % (
                env, r.choice(["", "[h]", "[!t]"]), r.choice(["", "\\centering\n"]),
                "\n".join(p[0] for p in parts), env), [n]
        if k == "subfig":
            subs, tex = [], []
            for _ in range(r.randrange(1, 4)):
                g, gn = self.graphic()
                c, cn = self.caption("sub")
                s = {"t": "subfigure", "c": gn + cn}
                lift(s)
                subs.append(s)
                tex.append("\\begin{subfigure}%s{0.4\\textwidth}\n%s\n%s\n\\end{subfigure}" % (r.choice(["", "[b]"]), g, c))
            c, cn = self.caption("fig")
            n = {"t": "figure", "_num": "figure", "c": subs + cn}
            lift(n)
            return "\\begin{figure}\n%s\n%s\n\\end{figure}" % ("\n".join(tex), c), [n]
        if k == "thm":
            name = r.choice(THEOREMS + PLAIN_MATHENVS[:3])
            star = self.maybe(0.1)
            n = {"t": "math_env", "name": name}
            if name in THEOREMS and not star:
                n["_num"] = "math_env"
            o = ""
            if self.maybe(0.3):
                if self.opt["richopt"] and self.maybe(0.1):
                    t, a = self.bracketed()
                else:
                    self.in_opt = True  # no brackets inside an optional argument
                    t, a = self.inline(r.randrange(1, 3), 0, (), NOBLOCKY)
                    self.in_opt = False
                o, n["title"] = "[%s]" % t, a
            lt, ll = self.label("thm")
            if ll:
                n["labels"] = ll
            t, c = self.blocks(r.randrange(1, 3), depth - 1, tuple(ban) + FLOATS + ("thm",))
            n["c"] = c
            e = name + ("*" if star else "")
            return "\\begin%s{%s}%s%s\n%s\n\\end%s{%s}" % (self.sp(), e, self.sp() + o if o else "", lt, t, self.sp(), e), [n]
        if k == "quote":
            t, c = self.blocks(r.randrange(1, 3), depth - 1, tuple(ban) + FLOATS)
            return "\\begin%s{quote}\n%s\n\\end%s{quote}" % (self.sp(), t, self.sp()), [{"t": "quote", "c": c}]
        if k == "layout":
            e, arg = r.choice([("center", ""), ("flushleft", ""), ("minipage", "{0.5\\textwidth}"), ("flushright", "")])
            t, c = self.blocks(r.randrange(1, 3), depth - 1, tuple(ban) + FLOATS)
            return "\\begin{%s}%s\n%s\n\\end{%s}" % (e, arg, t, e), c
        if k == "verbatim":
            return self.verbatim(ban)
        if k == "algorithm":
            w = self.word()
            body = "\\begin{algorithmic}[1]\n\\State $x \\gets %s$\n\\If{$%s$}\n\\State %s\n\\EndIf\n\\end{algorithmic}" % (
                self.math(1), self.math(1), w)
            cap, cn = self.caption("alg")
            inner = body[len("\\begin{algorithmic}[1]\n"):-len("\n\\end{algorithmic}")]
            an = [{"t": "algorithmic", "tex": inner, "c": []}]
            n = {"t": "algorithm", "name": "algorithm", "_num": "algorithm", "c": cn + an}
            lift(n)
            return "\\begin{algorithm}%s\n%s\n%s\n\\end{algorithm}" % (r.choice(["", "[h]"]), cap, body), [n]
        if k == "lay":
            return r.choice([" ", "\n", "\n\n"]).join(layout.vary(r, r.choice(layout.BLOCK)) for _ in range(r.choice([1, 1, 2, 4]))), []
        if k == "diagram":
            body = "\\draw (0,%d) -- (%d,1) node {%s};" % (r.randrange(9), r.randrange(9), self.word())
            return "\\begin{tikzpicture}\n%s\n\\end{tikzpicture}" % body, [
                {"t": "diagram", "name": "tikzpicture", "tex": body, "c": []}]
        if k == "unkenv":
            e = r.choice(self.opt["envnames"])
            e = r.choice([e + "zq", e + "Zq", "zq" + e, e + "-zq", "zz:" + e, "zz_" + self.word().lower(), "zz" + self.word(), e + "zq2"])
            t, c = self.blocks(r.randrange(1, 3), depth - 1, tuple(ban) + FLOATS)
            lt, ll = self.label("zz")
            n = {"t": "environment", "name": e, "c": c}
            if ll:
                n["labels"] = ll
            return "\\begin{%s}%s\n%s\n\\end{%s}" % (e, lt, t, e), [n]
        if k == "userenv":
            return r.choice(self.envs)(self, depth)
        raise ValueError(k)

    def verbatim(self, ban=()):
        r = self.rng
        lines = []
        pool = CODE_LINES + (CODE_RICH if self.opt["richcode"] else [])
        for _ in range(r.randrange(1, 12 if self.opt["richcode"] else 5)):
            lines.append(r.choice(pool).replace("@W", self.word()))
        lines = [x for x in lines]
        while lines and not lines[0].strip():
            lines.pop(0)
        while lines and not lines[-1].strip():
            lines.pop()
        lines = lines or [self.word()]
        lines[0] = lines[0].lstrip()
        lines[-1] = lines[-1].rstrip()
        if lines[0].startswith("["):
            lines[0] = self.word() + lines[0]
        body = "\n".join(lines)
        if self.maybe(0.5):
            return "\\begin{verbatim}\n%s\n\\end{verbatim}" % body, [{"t": "code", "tex": body, "c": []}]
        o, n = "", {"t": "code", "tex": body, "c": []}
        if self.maybe(0.5):
            n["title"] = "language=" + r.choice(["Python", "C"])
            o = "[%s]" % n["title"]
        return "\\begin{lstlisting}%s\n%s\n\\end{lstlisting}" % (o, body), [n]

    def caption(self, prefix):
        t, c = self.inline(self.rng.randrange(1, 6), 1, (), ("fn", "verb"))
        lt, ll = self.label(prefix)
        n = {"t": "caption", "c": c}
        if ll:
            n["labels"] = ll
        return "\\caption%s%s%s{%s}%s" % ("*" if self.opt["richopt"] and self.maybe(0.05) else "", self.sp(), self.shortopt() + self.sp() if self.maybe(0.1) else "", t, lt), [n]

    def graphic(self):
        f = self.rng.choice(["figs/", "", "img/a_"]) + self.word().lower() + self.rng.choice([".png", ".pdf", ""])
        return "\\includegraphics%s%s{%s}" % (self.rng.choice(["", self.sp() + "[width=0.5\\textwidth]", self.sp() + "[scale=0.3]"]), self.sp(), f), [
            {"t": "includegraphics", "tex": f, "c": []}]

    def equation(self):
        r = self.rng
        k = r.randrange(10)
        m = self.math()
        if k == 0:
            return "\\[ %s \\]" % m, [{"t": "equation", "tex": mtex(m), "c": []}]
        if k == 1:
            return "$$ %s $$" % m, [{"t": "equation", "tex": mtex(m), "c": []}]
        if k == 2 and self.opt["subeq"]:
            lt, ll = self.label("eq")
            parts = [self.equation() for _ in range(r.randrange(1, 4))]
            c = [x for p in parts for x in p[1]]
            t = "\\begin{subequations}%s\n%s\n\\end{subequations}" % (lt, "\n".join(p[0] for p in parts))
            return t, ([{"t": "group", "labels": ll, "c": c}] if ll else c)
        env = r.choice(EQ_ENVS)
        star = self.maybe(0.25)
        n = {"t": "equation", "c": []}
        lt, ll = ("", []) if star else self.label("eq")
        rows = None
        if env in ("align", "flalign", "eqnarray", "gather", "alignat") and self.maybe(0.6):
            amp = {"eqnarray": "&=&", "gather": "="}.get(env, "&=")
            rows = ["%s %s %s" % (self.math(1), amp, self.math(1)) for _ in range(r.randrange(1, 4))]
            if self.maybe(0.2):
                rows[-1] += r.choice([" \\nonumber", " \\notag"])
        rows = rows or [m]
        if ll and not rows[1:] and env == "equation" and self.maybe(0.2):
            # a label in the middle
            x = r.choice([" + " + self.math(1), "b", " x", "\n= " + self.math(1)])
            n["tex"], m, lt = mtex(rows[0] + (" b" if x == "b" else x)), rows[0] + lt.strip() + x, ""
            rows = [m]
        else:
            n["tex"] = mtex(" \\\\\n".join(rows))
        if rows[1:] and not star and self.maybe(0.3):
            # a label on every row instead of one for the whole
            lt, ll = "", []
            for i in range(len(rows)):
                t, l = self.label("eq")
                rows[i] += t and " " + t
                ll += l
        m = " \\\\\n".join(rows)
        if ll:
            n["labels"] = ll
        if not star:
            n["_num"] = "equation"
        if "align" in env or env == "eqnarray":
            n["align"] = True
        e = env + ("*" if star else "")
        a, b = (lt, "") if self.maybe(0.7) else ("", lt)
        return "\\begin%s{%s}%s%s\n%s\n%s\\end%s{%s}" % (self.sp(), e, "{2}" if env == "alignat" else "", a, m, b, self.sp(), e), [n]

    def makecell(self):
        r = self.rng
        parts = [self.inline(r.randrange(1, 3), 1, (), ("fn", "verb", "cell")) for _ in range(r.randrange(1, 4))]
        return "\\%s%s{%s}" % (r.choice(["makecell", "makecell", "shortstack"]), r.choice(["", "[l]", "[c]"]), r.choice([" \\\\ ", "\\\\"]).join(p[0] for p in parts)), [x for p in parts for x in p[1]]

    def tabular(self, nrow=None, ncol=None, spans=0.15, nested=False):
        r = self.rng
        mr, mc = self.opt["table"]
        nr, nc = nrow or r.randrange(1, mr), ncol or r.randrange(1, mc)
        rich = self.opt["richtable"]
        env = r.choice(["tabular", "tabular", "tabular", "tabular*", "tabularx", "longtable"])
        spec = {"tabular*": "{\\textwidth}", "tabularx": "{\\linewidth}"}.get(env, "")
        cols = r.choice(["", "|"]) + r.choice(["|", ""]).join(r.choice(["l", "c", "r", "p{2cm}"]) for _ in range(nc))
        rows, tex = [], []
        for i in range(nr):
            cells, ct, j = [], [], 0
            while j < nc:
                w = 1
                ban = ("fn", "verb", "cell")
                if self.maybe(0.12) and not (nc == 1):
                    t, c, node = "", [], (1, 1, [])
                    if i in (0, nr - 1) and j == 0:
                        x = self.word()
                        t, node = x, (1, 1, [("w", x, ())])
                else:
                    t, c = self.inline(r.randrange(1, 4), 1, (), ban)
                    node = (1, 1, c)
                    if rich and not nested and self.maybe(0.06):
                        t2, c2 = self.tabular(r.randrange(1, 3), r.randrange(1, 3), spans, True) if self.maybe(0.5) else self.graphic()
                        t, node = t + " " + t2, (1, 1, c + c2)
                    elif rich and self.maybe(0.06):
                        a, b, v = self.math(0), self.math(0), r.choice(["matrix", "cases", "array}{cc"])
                        m = "\\begin{%s} %s & %s \\\\ %s & %s \\end{%s}" % (v, a, b, b, a, v.split("}")[0])
                        t, node = t + " $" + m + "$", (1, 1, c + [("m", mtex(m))])
                    elif rich and self.maybe(0.06):
                        t, c = self.makecell()
                        t2, c2 = self.inline(r.randrange(1, 3), 1, (), ban) if self.maybe(0.3) else ("", [])
                        t, node = t + " " + t2, (1, 1, c + c2)
                    elif self.maybe(spans):
                        st = None
                        if rich and self.maybe(0.25):
                            # the whole cell in a style
                            st = r.choice(list(BASIC_STYLES))
                            t, c = self.inline(r.randrange(1, 4), 1, (BASIC_STYLES[st],), ban)
                        elif rich and self.maybe(0.15):
                            t, c = self.makecell()
                        if self.maybe(0.6) and nc - j >= 2:
                            w = r.randrange(2, nc - j + 1)
                            if self.maybe(0.2):
                                h = r.randrange(2, 4)
                                t, node = "\\multicolumn{%d}{%s}{\\multirow{%d}{*}{%s}}" % (w, r.choice(["c", "|c|", "l"]), h, t), (h, w, c)
                            else:
                                t, node = "\\multicolumn%s{%d}%s{%s}%s{%s}" % (self.sp(), w, self.sp(), r.choice(["c", "|c|", "l", "p{3cm}"]), self.sp(), t), (1, w, c)
                        else:
                            h = r.randrange(2, 4)
                            t, node = "\\multirow%s{%d}{%s}{%s}" % (r.choice(["", "", "", "[t]"]), h, r.choice(["*", "2cm"]), t), (h, 1, c)
                        if st:
                            t = "\\%s{%s}" % (st, t)
                        elif rich and "multirow" in t and self.maybe(0.15):
                            t2, c2 = self.inline(1, 1, (), ban)
                            t, node = t + " " + t2, (node[0], node[1], c + c2)
                cells.append(node)
                ct.append(t)
                j += w
            rows.append(cells)
            amp = r.choice([" & ", " & ", "&", "\n& ", " &\n"])
            tex.append(amp.join(ct))
        def hl(nxt):
            """rules before a row, or nothing"""
            h = r.choice(["", "", "\\hline\n", "\\toprule\n", "\\cline{1-%d}\n" % nc, "\\midrule ", "\\hline\\hline\n",
                          "\\cmidrule(lr){1-2}\n", "\\addlinespace\n", "\\bottomrule\n"])
            if self.maybe(0.1):
                h = r.choice(["\\toprule[1pt]\n", "\\midrule[2pt] ", "\\addlinespace[2pt]\n", "\\specialrule{1pt}{2pt}{3pt}\n", "\\hdashline\n",
                              "\\cmidrule[1pt](lr){1-2}\n", "\\cmidrule(l){1-1}\\cmidrule(lr{.5em}){2-2}\n", "\\cmidrule[2pt]{1-2} ",
                              "\\cline {1-2}\n", "\\cdashline{1-2}\n", "\\morecmidrules ", "\\Xhline{2pt}\n", "\\noalign{\\smallskip}\n",
                              "\\rowcolor{gray!20}\n", "\\hline\\rowcolor[gray]{0.9} "])
            if nxt[:1] in "0123456789&\\$" and BARE.search(h.rstrip()) and self.maybe(0.5):
                h = h.rstrip()
            return h
        for i, row in enumerate(rows):
            # a row that begins with a number
            c = row[0][2]
            if rich and row[0][0] == row[0][1] == 1 and c and isinstance(c[0], tuple) and c[0][0] == "w" and c[0][1].isalpha() and tex[i].startswith(c[0][1]) and self.maybe(0.1):
                d = r.choice("0123456789")
                tex[i] = d + tex[i]
                row[0] = (1, 1, [("w", d + c[0][1], c[0][2])] + c[1:])
        body = hl(tex[0])
        for i, t in enumerate(tex):
            body += t + (r.choice([" \\\\"] * 5 + ["\\\\", " \\tabularnewline"] + ([" \\\\*"] if i < nr - 1 else [])) + r.choice(["", "", "[2pt]"]) + "\n" + hl(tex[i + 1] if i < nr - 1 else "") if i < nr - 1 or self.maybe(0.7) else "\n")
        return "\\begin{%s}%s{%s}\n%s\\end{%s}" % (env, spec, cols, body, env), [{"t": "tabular", "rows": rows, "c": []}]


NOBLOCKY = ("fn", "verb", "cite", "ref", "hyperref", "href", "url", "unknown")
NOINL = ("fn", "verb", "cite", "ref", "hyperref", "href", "url", "unknown", "macro")
FLOATS = ("table", "figure", "subfig", "algorithm", "longtable")


BARE = re.compile(r"\\[a-zA-Z]+$")


def lift(n):
    """labels of a float's own caption belong to the float (as a set)"""
    ll = list(n.get("labels", []))
    for c in n["c"]:
        if isinstance(c, dict) and c["t"] == "caption" and "labels" in c:
            ll += c.pop("labels")
    if ll:
        n["labels"] = ll


FLOAT_T = ("figure", "table", "algorithm", "subfigure")


def canon(nodes):
    """canonical form used for comparison on both sides: labels of captions
    lifted to the float, accents split into words."""
    from .norm import words
    out = []
    for n in nodes:
        if isinstance(n, tuple):
            if n[0] == "acc":
                out += [("w", w, n[2]) for w in words(n[1])]
            elif n[0] == "fn":
                out.append(("fn", canon(n[1])))
            elif n[0] in ("url", "ref", "cite") and n[2]:
                out.append((n[0], n[1], tuple(canon(n[2]))))
            else:
                out.append(n)
            continue
        n = dict(n)
        n["c"] = canon(n["c"])
        if isinstance(n.get("title"), list):
            n["title"] = canon(n["title"])
        if n["t"] == "tabular":
            n["rows"] = [[(a, b, canon(c)) for a, b, c in row] for row in n["rows"]]
        if n["t"] == "bibliography":
            n["items"] = [dict(i, c=canon(i["c"])) for i in n["items"]]
        if n["t"] == "author":
            n["authors"] = [canon(a) for a in n["authors"]]
        if n["t"] in FLOAT_T:
            lift(n)
        out.append(n)
    return out


# ---- reference organisation: nesting and numbering -------------------
def organize(nodes):
    """flat expected nodes (with _num/_star) -> nested and numbered tree.
    Plain re-statement of LaTeX's article-class counters."""
    cnt = {"equation": 0, "table": 0, "figure": 0, "algorithm": 0, "math_env": 0, "part": 0}
    sec = [0, 0, 0]
    state = {"app": False}

    def letter(n):
        s = ""
        while n:
            n, r = divmod(n - 1, 26)
            s = chr(65 + r) + s
        return s

    def first():
        return (letter(sec[0]) if sec[0] else "0") if state["app"] else str(sec[0])

    def number(n, depth):
        n = dict(n)
        k = n.pop("_num", None)
        star = n.pop("_star", None)
        if n["t"] == "section":
            if not star:
                lv = n["level"]
                if lv == 0:
                    cnt["part"] += 1
                    n["numbering"] = str(cnt["part"])
                else:
                    sec[lv - 1] += 1
                    for j in range(lv, 3):
                        sec[j] = 0
                    if lv == 1:
                        cnt["math_env"] = 0
                    n["numbering"] = ".".join([first()] + [str(x) for x in sec[1:lv]])
        elif k == "math_env":
            cnt[k] += 1
            n["numbering"] = "%s.%d" % (first(), cnt[k])
        elif k:
            cnt[k] += 1
            n["numbering"] = str(cnt[k])
        d = depth
        if n["t"] == "list":
            d = depth + 1
            n["depth"] = d
        n["c"] = [number(x, d) if isinstance(x, dict) else x for x in n["c"]]
        return n

    root = []
    top = root
    secs, paras = [], []  # stacks
    for n in nodes:
        if isinstance(n, dict) and n["t"] == "appendix":
            state["app"] = True
            sec[:] = [0, 0, 0]
            cnt["math_env"] = 0
            n = dict(n, c=[])
            root.append(n)
            top, secs, paras = n["c"], [], []
            continue
        if isinstance(n, dict):
            n = number(n, 0)
        if isinstance(n, dict) and n["t"] == "bibliography":
            root.append(n)
            secs, paras = [], []
            continue
        if isinstance(n, dict) and n["t"] == "section":
            while secs and secs[-1]["level"] >= n["level"]:
                secs.pop()
            (secs[-1]["c"] if secs else top).append(n)
            secs.append(n)
            paras = []
        elif isinstance(n, dict) and n["t"] == "paragraph":
            while paras and paras[-1]["level"] >= n["level"]:
                paras.pop()
            host = paras[-1]["c"] if paras else (secs[-1]["c"] if secs else top)
            host.append(n)
            paras.append(n)
        else:
            host = paras[-1]["c"] if paras else (secs[-1]["c"] if secs else top)
            host.append(n)
    return root


def expected(nodes):
    return canon(organize(nodes))
