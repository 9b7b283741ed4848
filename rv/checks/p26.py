"""Monitor for environments the document defines itself: \\newenvironment with
its arguments, and theorem kinds declared by \\newtheorem."""
from .. import gen
from ..flow import MODES, full, judge

PROPERTY = "P26"
LEVEL = "exploration"
RULE = "distinct document shapes with user-defined environments"
ASSUMPTIONS = ["definitions stand before their uses at the top level", "documents of the generated grammar"]
MIN_EVENTS = {"evaluations": 2000, "uses of user environments": 4000, "facts": 40000}

INL = {"verb": 0, "unknown": 0}
KINDS = {"Theorem": 1, "Lemma": 1, "Proposition": 1, "Corollary": 1, "Definition": 1, "Conjecture": 1, "Example": 1, "Remark": 1, "Axiom": 1, "Exercise": 1, "Observation": 1,
         "Proof": 0, "Notation": 0, "Note": 0, "Claim": 0, "Solution": 0}


class Envs:
    def __init__(self, g):
        self.g, self.r, self.uses = g, g.rng, 0
        self.names = set()
        self.inner = {}    # name -> text before and after; without arguments: can be used in definitions

    def name(self):
        g, r = self.g, self.r
        while True:
            n = g.word().lower()
            k = r.random()
            if k < 0.2:
                n = r.choice(["my", "the", "x"]) + r.choice(["theorem", "quote", "table", "list", "proof", "equation", "figure", "abstract", "center", "lemma", "verbatim", "item"])
            elif k < 0.3:
                n = r.choice(["theorem", "quote", "tab", "proof", "lemma", "itemize"]) + r.choice(["x", "box", "er", "s", "2"])
            elif k < 0.35:
                n += r.choice(["-a", "_b", ":c", "2"])
            if n not in self.names and n not in ("proofs",):
                self.names.add(n)
                return n

    # -- \newtheorem
    def theorem(self):
        g, r = self.g, self.r
        n = self.name()
        star = r.random() < 0.25
        known = r.random() < 0.75
        title = r.choice(list(KINDS)) if known else g.word().capitalize() + r.choice(["", " " + g.word()])
        if known and r.random() < 0.2:
            title = title.lower()
        sp = lambda: r.choice(["", "", "", "", " ", "\n"])
        d = "\\newtheorem%s%s{%s}%s%s{%s}" % ("*" if star else "", sp(), n, "" if star or r.random() < 0.6 else sp() + "[%s]" % r.choice(["theorem", n, "equation"]), sp(), title)
        if not star and not d.count("[") and r.random() < 0.3:
            d += sp() + "[%s]" % r.choice(["section", "chapter", "equation"])

        def use(g, depth):
            self.uses += 1
            t, c = g.blocks(r.randrange(1, 3), min(depth, 2) - 1, gen.FLOATS + ("thm",))
            lt, ll = g.label("thm")
            s = "*" if known and r.random() < 0.08 else ""
            o = ""
            if known:
                node = {"t": "math_env", "name": title, "c": c}
                if KINDS[title.capitalize()] and not star and not s:
                    node["_num"] = "math_env"
                if r.random() < 0.3:
                    g.in_opt = True
                    o, a = g.inline(r.randrange(1, 3), 0, (), gen.NOBLOCKY)
                    g.in_opt = False
                    o, node["title"] = "[%s]" % o, a
            else:
                node = {"t": "environment", "name": title, "c": c}
            if ll:
                node["labels"] = ll
            return "\\begin{%s%s}%s%s\n%s\n\\end{%s%s}" % (n, s, o, lt, t, n, s), [node]
        return d, use

    # -- \newenvironment
    def environment(self, again=None):
        g, r = self.g, self.r
        n = again or self.name()
        nargs = r.choice([0, 0, 0, 1, 1, 2, 3])
        opt = nargs > 0 and r.random() < 0.4
        default = g.word() if opt else None
        # text before and after the body, with the arguments somewhere in it
        def side(args):
            parts = []
            for k in range(r.randrange(0, 3)):
                parts.append(("w", g.word(), r.choice([None, None, "textbf", "emph"])))
            for a in args:
                parts.insert(r.randrange(len(parts) + 1), ("#", a, r.choice([None, None, "textbf", "emph", "math"])))
            return parts
        before, after = side(range(nargs)), side([k for k in range(nargs) if r.random() < 0.15])
        wrap = r.choice([None, None, None, ("quote", "", {"t": "quote"}), ("center", "", None), ("itemize", "\\item ", {"t": "list", "name": "itemize"}),
                         ("flushleft", "", None), ("lemma", "", {"t": "math_env", "name": "lemma", "_num": "math_env"}), ("proof", "", {"t": "math_env", "name": "proof"})])
        if self.inner and r.random() < 0.2:
            # around another environment of the document
            i = r.choice(list(self.inner))
            wrap = (i, "", {"t": "environment", "name": i})
        cmd = "renewenvironment" if again else "newenvironment"

        def src(parts, args=None):
            out = []
            for p in parts:
                x = p[1] if p[0] == "w" else ("#%d" % (p[1] + 1) if args is None else args[p[1]])
                if p[2] == "math":
                    out.append("$%s_1$" % x)
                else:
                    out.append("\\%s{%s}" % (p[2], x) if p[2] else x)
            return " ".join(out)
        st = {"textbf": "bold", "emph": "italic"}

        def atoms(parts, args):
            out = []
            for p in parts:
                x = p[1] if p[0] == "w" else args[p[1]]
                if p[2] == "math":
                    out.append(("m", x + "_1"))
                else:
                    out += [("w", y, (st[p[2]],) if p[2] else ()) for y in x.split()]
            return out
        if not again and not nargs and not wrap:
            self.inner[n] = (atoms(before, []), atoms(after, []))
        b = ("\\begin{%s}%s" % wrap[:2] if wrap else "") + src(before) + r.choice(["", " ", "\n", "%\n"])
        a = src(after) + ("\\end{%s}" % wrap[0] if wrap else "")
        a = r.choice(["", " ", "\n"]) + a
        sp = lambda: r.choice(["", "", "", " ", "\n"])
        d = "\\%s{%s}%s%s%s{%s}%s{%s}" % (cmd, n, "[%d]" % nargs if nargs else "", "[%s]" % default if opt else "", sp(), b, sp(), a)

        def use(g, depth):
            self.uses += 1
            args, s = [], ""
            for k in range(nargs):
                v = " ".join(g.word() for _ in range(r.randrange(1, 3)))
                if "math" in [p[2] for p in before + after if p[0] == "#" and p[1] == k]:
                    v = r.choice("abc")
                if k == 0 and opt:
                    if r.random() < 0.5:
                        s += "[%s]" % v
                    else:
                        v = default
                else:
                    s += r.choice(["", "", " "]) * bool(s) + "{%s}" % v
                args.append(v)
            lt, ll = g.label("env") if r.random() < 0.3 and not wrap else ("", [])
            t, c = g.blocks(r.randrange(1, 3), min(depth, 2) - 1, gen.FLOATS + ("thm",))
            w = g.word()
            inner = atoms(before, args) + [("w", w, ())] + c + atoms(after, args)
            if wrap and wrap[0] == "itemize":
                inner = [{"t": "item", "c": inner}]
            if wrap and wrap[2] and wrap[0] in self.inner:
                inner = self.inner[wrap[0]][0] + inner + self.inner[wrap[0]][1]
            if wrap and wrap[2]:
                inner = [dict(wrap[2], c=inner)]
            node = {"t": "environment", "name": n, "c": inner}
            if ll:
                node["labels"] = ll
            return "\\begin{%s}%s%s\n%s\n\n%s\n\\end{%s}" % (n, s, lt, w, t, n), [node]
        return d, use


def document(rng, mode):
    g = gen.Gen(rng, INL, {"table": 1, "figure": 1, "userenv": 35}, depth=3, newlines=rng.random() < 0.7)
    e = Envs(g)
    again = []
    tex, nodes, pre = "", [], ""
    for part in range(rng.choice([1, 1, 2, 3])):
        defs = []
        for k in range(rng.randrange(1, 5) if not part else rng.randrange(0, 3)):
            if part and again and rng.random() < 0.5:
                # a new meaning for an environment from here on
                k = rng.randrange(len(again))
                d, use = e.environment(again[k][0])
                g.envs[again[k][1]] = use
            elif rng.random() < 0.5:
                d, use = e.theorem()
                g.envs.append(use)
            else:
                d, use = e.environment()
                n = d[d.index("{") + 1:d.index("}")]
                if n not in e.inner:
                    again.append((n, len(g.envs)))
                g.envs.append(use)
            defs.append(d)
        d = "".join(d + rng.choice(["\n", "\n", " ", "", " % comment\n"]) for d in defs) + "\n"
        t, n = g.blocks(rng.randrange(1, 7), top=True)
        if not part:
            pre = d
            tex = t
        else:
            tex += "\n\n" + d + t
        nodes += n
    k = rng.randrange(3)
    exp = gen.expected(nodes)
    if k == 0:
        return e, pre + tex, exp
    doc = "\\documentclass{article}\n" if mode != "plain" and rng.random() < 0.7 else ""
    doc += pre + "\\begin{document}\n" + tex + "\n\\end{document}\n" if k == 1 else "\\begin{document}\n" + pre + tex + "\n\\end{document}\n"
    return e, doc, [{"t": "document", "c": exp}]


def case(i, rng, obs, tier):
    for k in range(3):
        mode = rng.choice(MODES)
        e, tex, exp = document(rng, mode)
        obs.count("uses of user environments", e.uses)
        judge(obs, tex, exp, mode, full)


def plan(tier):
    return {"cases": 1200 if tier == "quick" else 30000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
