"""Generator of user macros: definition text, call text and the text the call
stands for.  Calls are written into documents as markers; `as_macros` and
`inlined` turn a document with markers into its two forms."""
import re

MARK = re.compile("\x01(\\d+)\x02")
NAMES = ["R", "cC", "eps", "sect", "re", "texts", "beg", "it", "em", "foo", "bar", "foobar", "foob", "x", "y", "X", "ve", "la", "alp", "mat", "opn",
         "abcd", "abc", "ab", "a", "zz", "hello", "newth", "itemx", "lab", "cit", "en", "fr", "su", "op", "noi", "ha", "lef", "tex", "cap", "foot", "hs", "bb", "E", "P"]


class Macro:
    __slots__ = ("name", "nargs", "default", "body", "math", "delim", "op", "star")


class Macros:
    def __init__(self, rng):
        self.rng = rng
        self.sites = []       # (macro form, inlined form), with markers inside
        self.text, self.math = [], []
        self.defs = []
        self.used, self.stars = set(), True
        # macros that come to a paired delimiter which is a command
        self.glue = set()

    def name(self):
        r = self.rng
        while True:
            n = r.choice(NAMES)
            if r.random() < 0.6:
                n += "".join(r.choice("abcdexyzKQ") for _ in range(r.randrange(0, 3))) + r.choice("KQZ")
            # the name must be free and not one the package (or LaTeX) knows
            # (\x with \endx makes an environment)
            if n not in self.used and n not in TAKEN and "end" + n not in self.used and (n[:3] != "end" or n[3:] not in self.used):
                self.used.add(n)
                return n

    def site(self, macro, inlined):
        self.sites.append((macro, inlined))
        return "\x01%d\x02" % (len(self.sites) - 1)

    def sub(self, tex, which):
        prev = None
        while prev != tex:
            prev = tex
            tex = MARK.sub(lambda m: self.sites[int(m.group(1))][which], tex)
        return tex

    def as_macros(self, tex):
        return self.sub(tex, 0)

    def inlined(self, tex):
        return self.sub(tex, 1)

    # -- definitions ---------------------------------------------------
    def make(self, g, math):
        r = self.rng
        if self.stars and r.random() < 0.08:
            return self.starred(g, math)
        m = Macro()
        m.name, m.math, m.delim, m.op, m.star = self.name(), math, None, False, None
        m.nargs = r.choice([0, 0, 1, 1, 2, 2, 3, 9] if not math else [0, 0, 0, 1, 1, 2, 3])
        m.default = None
        if m.nargs and m.nargs < 9 and r.random() < 0.25:
            m.default = g.word() if not math else r.choice(["n", "k", "2"])
        if math and r.random() < 0.12:
            m.nargs, m.default, m.op = 1, None, True
            a, b = r.choice([("\\lVert", "\\rVert"), ("\\langle", "\\rangle"), ("(", ")"), ("\\{", "\\}"), ("|", "|"), ("\\lfloor", "\\rfloor")])
            m.body = "%s #1 %s" % (a, b)
            self.math.append(m)
            if a[1:].isalpha():
                self.glue.add(m.name)
            self.defs.append(r.choice(["\\DeclarePairedDelimiter{\\%s}{%s}{%s}", "\\DeclarePairedDelimiter\\%s{%s}{%s}"]) % (m.name, a, b))
            return m
        pieces = self.mathbody(g, m) if math else self.textbody(g, m)
        m.body = pieces
        (self.math if math else self.text).append(m)
        self.define(g, m)
        return m

    def starred(self, g, math):
        """a command with a starred form: one macro for each"""
        r = self.rng
        m = Macro()
        m.name, m.math, m.delim, m.op, m.star = self.name(), math, None, False, []
        form = r.choice([("%sstar", "%snostar"), ("@%s", "@@%s"), ("s@%s", "@%s"), ("%sS", "%sN"), ("%s@star", "%s@nostar")])
        defs = []
        for f in form:
            x = Macro()
            x.name, x.math, x.delim, x.op, x.star = f % m.name, math, None, False, None
            self.used.add(x.name)
            x.nargs = r.choice([0, 1, 1, 2, 3])
            x.default = (g.word() if not math else "k") if x.nargs and r.random() < 0.25 else None
            x.body = self.mathbody(g, x) if math else self.textbody(g, x)
            m.star.append(x)
        m.nargs, m.default, m.body = 0, None, None
        self.glued(m, " ".join(x.body for x in m.star))
        if all(not x.nargs for x in m.star) and r.random() < 0.5:
            # both given in place
            branches = ["{%s}" % x.body for x in m.star]
        else:
            for x in m.star:
                n = len(self.defs)
                self.define(g, x, plain=True)
                defs.append(self.defs.pop(n))
            branches = [r.choice(["{\\%s}", "\\%s", "\\%s", " {\\%s}"]) % x.name for x in m.star]
        d = r.choice(["\\newcommand{\\%s}{%s}", "\\newcommand\\%s{%s}", "\\def\\%s{%s}", "\\newcommand*{\\%s}{%s}", "\\renewcommand{\\%s}{%s}"]) % (m.name, "\\@ifstar" + "".join(branches))
        defs.insert(r.randrange(len(defs) + 1), d)
        self.defs.append(r.choice(["", "\\makeatletter\n"]) + "\n".join(defs) + "\n\\makeatother")
        (self.math if math else self.text).append(m)
        return m

    def textbody(self, g, m):
        r = self.rng
        args = ["#%d" % (i + 1) for i in range(m.nargs)]
        uses = list(args)
        if r.random() < 0.3 and args:
            uses.append(r.choice(args))
        if r.random() < 0.3:
            r.shuffle(uses)
        if r.random() < 0.1 and len(uses) > 1:
            uses.pop()
        out = []
        for _ in range(r.randrange(1, 3)):
            out.append(self.filler(g))
        for u in uses:
            k = r.randrange(6)
            if k == 0:
                u = "\\textbf{%s}" % u
            elif k == 1:
                u = "\\emph{%s %s}" % (g.word(), u)
            elif k == 2:
                u = r.choice(["(%s)", "(%s)", "%s0", "4%s2"]) % u
            elif k == 3 and self.text and r.random() < 0.7:
                u = self.call(g, r.choice(self.text), [u])
            out.append(u)
            if r.random() < 0.5:
                out.append(self.filler(g))
        return r.choice([" ", " ", "\n"]).join(out)

    def filler(self, g):
        r = self.rng
        k = r.randrange(10)
        if k < 5:
            return g.word()
        if k == 5:
            return "\\textit{%s}" % g.word()
        if k == 6:
            return "$%s$" % r.choice(["x_1", "\\alpha", "a+b", "\\frac{a}{b}"])
        if k == 7:
            return "\\ref{%s}" % g.word().lower()
        if k == 8:
            return "\\cite{%s}" % g.word().lower()
        if self.text:
            return self.call(g, r.choice(self.text))
        return g.word()

    def mathbody(self, g, m):
        r = self.rng
        args = ["#%d" % (i + 1) for i in range(m.nargs)]
        if not args:
            k = r.randrange(5)
            if k == 0 and self.math:
                return r.choice(["%s + z", "\\mathbf{%s}", "(%s)"]) % self.call(g, r.choice(self.math))
            return r.choice(["\\mathbb{R}", "\\mathcal{L}", "\\alpha", "\\boldsymbol{\\theta}", "\\mathrm{Var}", "x_{ij}", "x + y", "\\frac{1}{2}", "\\operatorname{rank}",
                             "\\bar{x}", "ab", "\\left( u \\right)", "\\mathcal L", "\\varepsilon", "\\to \\infty"])
        out = []
        for a in args:
            out.append(r.choice(["%s", "\\mathbf{%s}", "\\left( %s \\right)", "\\frac{%s}{2}", "x_{%s}", "\\| %s \\|", "{%s}", "\\sqrt{%s}", "y^{%s}", "\\hat{%s}", "(%s2)", "7%s0"]) % a)
        if self.math and r.random() < 0.3:
            out.append(self.call(g, r.choice(self.math), [r.choice(args)]))
        return r.choice([" + ", " \\cdot ", " "]).join(out)

    def glued(self, m, body):
        found = bool(self.glue.intersection(re.findall(r"\\([a-zA-Z@]+)", self.as_macros(body))))
        if found:
            self.glue.add(m.name)
        return found

    def define(self, g, m, plain=False):
        r = self.rng
        body = m.body
        glue = self.glued(m, body)
        n = "\\" + m.name
        nargs = "[%d]" % m.nargs if m.nargs else ""
        forms = ["\\newcommand{%s}%s%s{%s}", "\\newcommand%s%s%s{%s}", "\\newcommand*{%s}%s%s{%s}", "\\renewcommand{%s}%s%s{%s}", "\\providecommand{%s}%s%s{%s}",
                 "\\DeclareRobustCommand{%s}%s%s{%s}"]
        if m.default is None and r.random() < 0.45:
            f = r.choice(["\\def%s%s{%s}", "\\def%s%s{%s}", "\\gdef%s%s{%s}", "\\long\\def%s%s{%s}",
                          "\\long\\gdef%s%s{%s}", "\\global\\def%s%s{%s}", "\\edef%s%s{%s}", "\\xdef%s%s{%s}", "\\def%s %s{%s}"])
            if glue:
                # expanded as text, where the delimiter and the argument are joined
                f = f.replace("edef", "def").replace("xdef", "gdef")
            if self.stars and not plain and r.random() < 0.15:
                n, f = m.name, r.choice(["\\expandafter\\def\\csname %s\\endcsname%s{%s}", "\\@namedef{%s}%s{%s}", "\\makeatletter\\@namedef{%s}%s{%s}\\makeatother"])
            par = "".join("#%d" % (i + 1) for i in range(m.nargs))
            if not plain and n[0] == "\\" and 0 < m.nargs < 4 and not m.math and r.random() < 0.25:
                # delimited parameters
                m.delim = r.choice([("(", ")"), ("<", ">"), ("", ";"), ("", "\\end" + m.name)])
                par = "%s#1%s" % m.delim + "".join("#%d" % (i + 2) for i in range(m.nargs - 1))
            d = f % (n, par, body)
        else:
            d = r.choice(forms) % (n, nargs, "[%s]" % m.default if m.default else "", body)
        self.defs.append(d)

    # -- calls ---------------------------------------------------------
    def call(self, g, m, args=None):
        """text of a call (a marker)"""
        r = self.rng
        args = list(args or [])
        head = "\\" + m.name
        if m.star:
            k = r.randrange(2)
            head += r.choice(["*", "*", "* "]) if k == 0 else ""
            m = m.star[k]
            if not m.nargs and k == 0:
                head = head.strip()
        args = args[:m.nargs]
        while len(args) < m.nargs:
            args.append(self.arg(g, m))
        r.shuffle(args)
        out = head + (r.choice(["", "*"]) if m.op else "")
        vals = list(args)
        braced = args
        if m.default is not None:
            if r.random() < 0.5:
                vals[0] = m.default
                braced = args[1:]
            else:
                o = args[0]
                if set("[]#\x01") & set(o):
                    o = vals[0] = g.word()
                elif r.random() < 0.15:
                    o = vals[0] = ""  # given, and empty: not the default
                out += "[%s]" % o
            braced = args[1:]
        if m.delim:
            a = args[0]
            if not m.delim[1].startswith("\\end") and not re.fullmatch(r"[\w ]+", a):
                a = vals[0] = g.word()
            out += (m.delim[0] or " ") + a + m.delim[1]
            braced = args[1:]
        sep = r.choice(["", "", "", " ", "\n"]) if not m.delim else ""
        out += "".join(sep + "{%s}" % a for a in braced)
        if not braced and not m.delim:
            if m.math:
                out += " "
            elif "[" not in out:
                out += "{}"
        inl = m.body
        # simultaneous substitution; markers inside the body are calls made with
        # the parameters of this macro, so they are resolved first
        inl = self.inlined(inl)
        inl = re.sub(r"#(\d)", lambda k: vals[int(k.group(1)) - 1], inl)
        if m.math:
            inl = "{" + inl + "}"
        return self.site(out, inl)

    def arg(self, g, m):
        r = self.rng
        if r.random() < 0.08:
            return ""
        if m.math:
            return r.choice(["u", "v_1", "n", "\\beta", "p+q", "12", "\\mathbf{w}", "x_{i}"])
        t, _ = g.inline(r.randrange(1, 3), 0, (), ("fn", "verb", "unknown", "url", "href", "legacy", "esc"))
        return t

    # -- hooks for the document generator ------------------------------
    def inline_hook(self, g, depth, styles):
        if not self.text:
            w = g.word()
            return w, g.W(w, styles)
        return self.call(g, self.rng.choice(self.text)), []

    def math_hook(self, g, depth):
        if not self.math:
            return "z"
        c = self.call(g, self.rng.choice(self.math))
        r = self.rng
        return r.choice(["%s", "%s", "\\frac{%s}{3}", "x_{%s}", "y^{%s}", "\\left( %s \\right)", "\\mathbf{%s}", "2 %s", "(%s)", "\\text{if $%s$}", "\\sqrt{ %s }"]) % c


TAKEN = set("""R re it em bar ha la le tex sup sub sum in to cap ne ni not phi psi xi nu mu pi chi eta tau rho top bot mid max min sup inf lim log exp sin cos tan
 dim det ker deg arg gcd hom Pr and or fi if else def let sl sc tt bf rm sf hat vec dot ddot acute grave tilde breve check bar hline ss aa ae oe o l L O AA AE OE P S c b d r u v H k t i j
 par item ref cite label caption footnote begin end section left right frac text math""".split())
