"""Definition history monitor: documents that define, redefine, copy and use
macros as they go; a small reference interpreter of LaTeX's rules says what each
use stands for."""
import re

from .. import flow, gen, norm
from ..core import CURRENT

PROPERTY = "P14"
LEVEL = "exploration"
RULE = "distinct histories (sequence of operations with the names they act on)"
ASSUMPTIONS = ["a macro is defined before its first use", "definitions are made outside groups", "no macro is recursive"]
MIN_EVENTS = {"evaluations": 1500, "uses": 8000, "redefinitions": 2000, "copies": 500}

NAMES = ["qa", "qab", "qabc", "foo", "foox", "Bar", "zz", "Zz", "hello", "xq", "myx", "defx", "letx", "mybegin", "alphaq", "sectionq", "itemx", "e", "eq"]


# symbols that formulas keep as commands and text has as characters
SYMBOLS = {"alpha": "α", "gamma": "γ", "delta": "δ", "omega": "ω", "lambda": "λ", "Omega": "Ω", "times": "×", "leq": "≤"}


def words(s):
    s = re.sub(r"\\([A-Za-z]+)", lambda m: " §%s " % m.group(1) if m.group(1) in SYMBOLS else " ", s)
    for k, v in SYMBOLS.items():
        s = s.replace(v, " §%s " % k)
    return re.findall(r"§?[A-Za-z]+|,", s)


class World:
    """name -> (number of arguments, default, [parts]); a part is a word, ("#", k) or
    a call (name, optional argument, [arguments])"""

    def __init__(self):
        self.env = {}

    def expand(self, call, fuel=200):
        name, opt, args = call
        n, default, parts = self.env[name]
        vals = list(args)
        if default is not None:
            vals = [[default] if opt is None else opt] + vals
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            elif p[0] == "#":
                out += self.flat(vals[p[1] - 1], ())
            else:
                out += self.expand((p[0], p[1] and self.sub(p[1], vals), [self.sub(a, vals) for a in p[2]]))
        return out

    def sub(self, parts, vals):
        out = []
        for p in parts:
            if isinstance(p, tuple) and p[0] == "#":
                out += vals[p[1] - 1]
            elif isinstance(p, tuple):
                out.append((p[0], p[1] and self.sub(p[1], vals), [self.sub(a, vals) for a in p[2]]))
            else:
                out.append(p)
        return out

    def flat(self, parts, vals):
        out = []
        for p in self.sub(parts, vals):
            out += [p] if isinstance(p, str) else self.expand(p)
        return out


def tex(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif p[0] == "#":
            out.append("#%d" % p[1])
        else:
            out.append(calltex(p))
    return " ".join(out)


def calltex(c):
    s = "\\" + c[0] + ("[%s]" % tex(c[1]) if c[1] is not None else "") + "".join("{%s}" % tex(a) for a in c[2])
    return s if s.endswith(("}", "]")) else s + "{}"


class Story:
    def __init__(self, rng):
        self.r = rng
        self.g = gen.Gen(rng)
        self.w = World()
        names = rng.sample(NAMES, rng.randrange(2, 9))
        # what may call what: a name only calls names before it
        self.rank = {n: i for i, n in enumerate(names)}
        self.names = names
        # names with a fixed form can be called by others
        self.form = {n: self.newform() for n in names}
        self.loose = {n for n in names if rng.random() < 0.3}
        self.ops = []

    def newform(self):
        r = self.r
        n = r.choice([0, 0, 0, 1, 1, 2])
        return n, (r.random() < 0.3 if n else False)

    def body(self, name, n):
        r = self.r
        parts = [self.g.word() for _ in range(r.randrange(1, 3))]
        for k in range(n):
            parts.insert(r.randrange(len(parts) + 1), ("#", k + 1))
        below = [m for m in self.names if self.rank[m] < self.rank[name] and m in self.w.env and m not in self.loose]
        if below and r.random() < 0.45:
            parts.insert(r.randrange(len(parts) + 1), self.call(r.choice(below), [("#", k + 1) for k in range(n)]))
        return parts

    def call(self, name, extra=()):
        r = self.r
        n, default, _ = self.w.env[name]
        args = []
        for _ in range(n):
            args.append([r.choice(extra)] if extra and r.random() < 0.4 else [self.g.word() for _ in range(r.randrange(1, 3))])
        opt = None
        if default is not None:
            o = args.pop(0)
            if r.random() < 0.5:
                opt = o
        return (name, opt, args)

    def define(self):
        """-> tex of a definition; the world changes"""
        r, w = self.r, self.w
        name = r.choice(self.names)
        if name in self.loose:
            self.form[name] = self.newform()
        n, hasdef = self.form[name]
        known = name in w.env
        z = r.random()
        if known and z < 0.15:
            # has no effect
            self.ops.append(("provide", name, n))
            return "\\providecommand{\\%s}%s{%s}" % (name, "[%d]" % n if n else "", self.g.word())
        if z < 0.35:
            # \let from a name whose meaning may be copied
            src = [m for m in self.names if m in w.env and m != name and self.rank[m] < self.rank[name] and (name in self.loose or (w.env[m][0], w.env[m][1] is not None) == self.form[name])]
            if src:
                m = r.choice(src)
                w.env[name] = w.env[m]
                self.ops.append(("let", name, m))
                return r.choice(["\\let\\%s\\%s ", "\\let\\%s=\\%s ", "\\let\\%s = \\%s\n", "\\let \\%s \\%s "]) % (name, m)
        if z < 0.42 and (name in self.loose or n == 0):
            # \let to something LaTeX provides
            c = r.choice([x for x in SYMBOLS] + ["B", "textbf", "emph"])
            if c in ("textbf", "emph"):
                if name not in self.loose:
                    c = "gamma"
                else:
                    self.form[name] = (1, False)
            if c not in ("textbf", "emph"):
                self.form[name] = (0, False)
            w.env[name] = (1, None, [("#", 1)]) if c in ("textbf", "emph") else (0, None, [c if c == "B" else "§" + c])
            self.ops.append(("letsym", name, c))
            return r.choice(["\\let\\%s=%s "] if c == "B" else ["\\let\\%s\\%s ", "\\let\\%s=\\%s ", "\\let\\%s \\%s\n"]) % (name, c)
        if n == 0 and z < 0.5:
            parts = self.body(name, 0)
            w.env[name] = (0, None, w.flat(parts, ()))
            self.ops.append(("edef", name))
            return r.choice(["\\edef\\%s{%s}", "\\xdef\\%s{%s}"]) % (name, tex(parts))
        default = self.g.word() if hasdef else None
        parts = self.body(name, n)
        w.env[name] = (n, default, parts)
        self.ops.append(("redefine" if known else "define", name, n, hasdef))
        if not hasdef and r.random() < 0.5:
            return r.choice(["\\def\\%s%s{%s}", "\\gdef\\%s%s{%s}", "\\long\\def\\%s%s{%s}"]) % (name, "".join("#%d" % (k + 1) for k in range(n)), tex(parts))
        c = r.choice(["\\renewcommand", "\\renewcommand", "\\newcommand", "\\DeclareRobustCommand", "\\renewcommand*"] if known else ["\\newcommand", "\\newcommand*", "\\providecommand", "\\DeclareRobustCommand"])
        return c + (r.choice(["{\\%s}", "\\%s"]) % name) + ("[%d]" % n if n else "") + ("[%s]" % default if hasdef else "") + "{%s}" % tex(parts)

    def use(self, math=False):
        w = self.w
        c = self.call(self.r.choice([n for n in self.names if n in w.env]))
        self.ops.append(("use", c[0], math))
        return calltex(c), w.expand(c)

    def place(self):
        """a use of some macro somewhere -> (tex, words expected)"""
        r, g = self.r, self.g
        t, e = self.use()
        a, b = g.word(), g.word()
        z = r.randrange(15)
        f = {0: "%s %%s %s" % (a, b), 1: "\\textbf{%s %%s} %s" % (a, b), 2: "{%s %%s} %s" % (a, b), 3: "%s\\footnote{%%s %s}" % (a, b), 4: "\\begin{itemize}\n\\item %s %%s\n\\item %s\n\\end{itemize}" % (a, b),
             5: "\\section{%s %%s %s}" % (a, b), 6: "\\begin{tabular}{ll} %s & %%s \\\\ %s & z \\end{tabular}" % (a, b), 7: "\\begin{quote}\n%s %%s %s\n\\end{quote}" % (a, b),
             8: "\\begin{figure}\\caption{%s %%s %s}\\end{figure}" % (a, b), 9: "\\emph{%s} %%s \\textit{%s}" % (a, b), 10: "%%s %s, %s" % (a, b), 11: "\\begin{theorem}[%s] %%s %s\\end{theorem}" % (a, b),
             12: "%s $%%s + %s$" % (a, b), 13: "%s\n\\begin{align}\n%%s &= %s \\\\\n2 &= 3\n\\end{align}" % (a, b), 14: "%s \\[ \\frac{%%s}{%s} \\]" % (a, b)}[z]
        pos = f.replace("%%s", "\x00").replace("%s", "\x00").index("\x00")
        before = [a] if a in f[:pos] else []
        after = [x for x in (a, b) if x in f[pos:]]
        if z == 6:
            after.append("z")
        if z == 10:
            after.insert(1, ",")
        return f.replace("%s", t), before + e + after


def case(i, rng, obs, tier):
    for k in range(6):
        s = Story(rng)
        out, exp = [], []
        used = redefs = copies = 0
        seps = rng.choice([["\n", "\n\n", " "], ["\n\n"], ["\n"], [" "]])
        text = ""
        for _ in range(rng.choice([rng.randrange(2, 6), rng.randrange(4, 25)])):
            if not s.w.env or rng.random() < 0.45:
                t = s.define()
                out.append(t)
            else:
                t, e = s.place()
                out.append(t)
                exp += e
                used += 1
        for t in out:
            text += t + rng.choice(seps)
        redefs = sum(o[0] in ("redefine", "edef") for o in s.ops)
        copies = sum(o[0] in ("let", "letsym") for o in s.ops)
        mode = flow.MODES[(i + k) % 3]
        if rng.random() < 0.3:
            text, _ = flow.wrap_document(rng, text, [], mode)
        CURRENT["input"] = text
        got = [w for x in flow.plain_words(flow.observe(text, mode)) for w in words(x)]
        obs.ev()
        obs.count("uses", used)
        obs.count("redefinitions", redefs)
        obs.count("copies", copies)
        obs.count("mode:" + mode)
        obs.seen("history", tuple(s.ops))
        obs.sample({"mode": mode, "input": text[:300]})
        d = norm.first_diff(exp, got)
        if d:
            obs.fail("history", f"[{mode}] {d}\n{text}", {"input": text, "mode": mode})


def worker_init(obs, tier):
    norm.mtex = lambda s: " ".join(s.split())


def plan(tier):
    return {"cases": 2400 if tier == "quick" else 60000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
