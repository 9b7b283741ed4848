"""Monitor for references, citations, links and footnotes: every one comes out once,
with its keys, target, note or text, at its place."""
from ..flow import DocCheck, p_links

PROPERTY = "P07"
LEVEL = "exploration"
RULE = "distinct document shapes with at least one reference, citation, link or footnote"
ASSUMPTIONS = ["documents of the generated grammar"]
MIN_EVENTS = {"evaluations": 500, "nontrivial": 500, "rare commands": 1500}


class Links:
    """the commands that are rare, or that depend on the commands before"""

    def __init__(self, g):
        self.g, self.r = g, g.rng
        self.alias = {}
        self.n = 0

    def atom(self, g, depth, styles):
        r = self.r
        self.n += 1
        k = r.randrange(9)
        if k == 0:
            d = "10.%d/%s%s" % (r.randrange(1000, 9999), g.word(), r.choice(["", ".x-1", "(a)", "_b_2", ";c:1", "%E2", "#d", "%41"]))
            return "\\doi%s{%s}" % (g.sp(), d), [("url", "https://doi.org/" + d, None)]
        if k == 1:
            d = r.choice(["%s/b.tex", "/usr/%s", "C:%s", "%s"]) % g.word()
            return "\\path%s{%s}" % (g.sp(), d), [("url", d, None)]
        if k == 2:
            n = r.randrange(40)
            if r.random() < 0.6:
                return "\\footnotemark[%d]" % n, [("fn", [("w", str(n), ())])]
            w = g.word()
            if r.random() < 0.3:
                return "\\footnotemark, %s" % w, [("fn", [("w", "*", ())]), ("w", ",", styles), ("w", w, styles)]
            return r.choice(["\\footnotemark{} %s", "\\footnotemark %s"]) % w, [("fn", [("w", "*", ())]), ("w", w, styles)]
        if k == 3:
            t, a = g.inline(r.randrange(1, 5), depth - 1, (), ("fn", "verb", "macro"))
            return "\\footnotetext%s%s{%s}" % (r.choice(["", "[%d]" % r.randrange(20)]), g.sp(), t), [("fn", a)]
        if k == 6:
            parts, out = "", []
            for _ in range(r.randrange(2, 5)):
                keys = [g.citekey() for _ in range(r.choice([1, 1, 2]))]
                note, title = "", ()
                q = r.random()
                if q < 0.3:
                    w = g.word()
                    note, title = "[%s]" % w, (("w", w, ()),)
                    if r.random() < 0.2:
                        note, title = g.bracketed()
                        note, title = "[%s]" % note, tuple(title)
                    if q < 0.1:
                        v = g.word()
                        note, title = note + "[%s]" % v, title + (("w", ",", ()), ("w", v, ()))
                parts += note + "{%s}" % r.choice([",", ", "]).join(keys)
                out.append(("cite", tuple(keys), title or None))
            w = g.word()  # a group right after it would be one more citation
            return "\\cites" + parts + " " + w, out + [("w", w, styles)]
        if k == 7:
            t, a = g.inline(r.randrange(1, 4), 0, (), ("fn", "verb", "cite", "ref", "hyperref", "href", "url", "unknown", "macro"))
            key = g.refkey()
            return "\\hyperref[%s]%s{%s}" % (key, g.sp(), t), [("ref", (key,), tuple(a))]
        keys = [r.choice(list(self.alias)) if self.alias and r.random() < 0.7 else g.citekey() for _ in range(r.choice([1, 1, 2, 3]))]
        return "\\cite%salias%s{%s}" % (r.choice("tp"), g.sp(), r.choice([",", ", "]).join(keys)), [("cite", (q,), self.alias.get(q)) for q in keys]

    def define(self, g, depth):
        """in the body, before the uses"""
        r = self.r
        if depth < g.opt["depth"]:
            t, a = g.inline(r.randrange(1, 4), 1, (), ("verb",))
            return t, a
        key = r.choice(list(self.alias)) if self.alias and r.random() < 0.3 else g.citekey()
        w = [g.word() for _ in range(r.randrange(1, 3))]
        self.alias[key] = tuple(("w", x, ()) for x in w)
        return "\\defcitealias%s{%s}%s{%s}" % (g.sp(), key, g.sp(), " ".join(w)), []


_i = {"ref": 14, "cite": 14, "url": 8, "href": 8, "hyperref": 8, "fn": 10, "macro": 10}
_b = {"userenv": 4}
_mix = (_i, _b, {}, (2, 10))
_dense = (_i, {"userenv": 10, "para": 60, "list": 5, "table": 6, "figure": 4, "section": 4, "thm": 5}, {"depth": 3}, (2, 10))
_style = (dict(_i, style=20, legacy=10, color=6, group=10), {"userenv": 10, "para": 60}, {"depth": 4}, (2, 8))
_cap = (_i, {"figure": 20, "table": 20, "subfig": 5, "algorithm": 5, "eq": 3, "para": 5, "userenv": 3}, {"labels": 1.0}, (2, 8))
_rich = (_i, {"userenv": 4}, {"richopt": 0.8, "spell": 0.2}, (2, 8))
_check = DocCheck(p_links, [_mix, _dense, _style, _cap, _rich], docs=5, interesting=bool)
_last = []


def _prepare(g):
    l = Links(g)
    g.macros.append(l.atom)
    g.envs.append(l.define)
    _last.append(l)


_check.prepare = _prepare


def case(i, rng, obs, tier):
    _last.clear()
    _check.case(i, rng, obs, tier)
    for l in _last:
        obs.count("rare commands", l.n)


def plan(tier):
    return {"cases": 700 if tier == "quick" else 18000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
