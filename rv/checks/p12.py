from .. import gen, norm
from ..flow import DocCheck, p_styles

PROPERTY = "P12"
LEVEL = "exploration"
RULE = "distinct document shapes with styled text"
ASSUMPTIONS = ["documents of the generated grammar; order of nested styles is not significant"]
MIN_EVENTS = {"evaluations": 500, "nontrivial": 500}

_i = {"style": 25, "legacy": 15, "color": 8, "group": 8, "esc": 5, "accent": 4}
_mix = (_i, {}, {}, (1, 8))
_deep = (_i, {"para": 60}, {"depth": 5}, (1, 5))
_tab = (_i, {"para": 5, "table": 20, "figure": 5, "section": 10, "list": 10, "thm": 6, "quote": 5}, {"depth": 3}, (1, 6))
_fn = (dict(_i, fn=12, href=5), {"para": 30}, {"depth": 4}, (1, 5))
_flat = (_i, {}, {"newlines": False}, (1, 8))
_block = (dict(_i, verb=0), {"userenv": 30, "para": 20, "list": 8, "table": 5, "thm": 5, "quote": 4}, {"depth": 3}, (1, 6))

IN = tuple(k for k in gen.BLOCK if k not in ("para", "eq", "list", "thm", "quote", "layout", "userenv", "tabular"))


def prepare(g):
    """groups with a style around whole blocks"""
    def styled(g, depth):
        r = g.rng
        c = r.choice(list(gen.LEGACY))
        st = (gen.LEGACY[c],)
        d = "\\" + c
        if r.random() < 0.2:
            d, st = "\\color{red}", ("color=red",)
        k = r.randrange(8)
        if k == 0:
            t, n = g.tabular()
        else:
            t, n = g.blocks(1 if k < 3 else r.randrange(1, 4), min(depth, 2) - 1, IN)
        if t.lstrip()[:1] in "{[" or r.random() < 0.2:
            # a brace would make an argument
            w = g.word()
            t, n = w + " " + t, [("w", w, ())] + n
        k = r.randrange(8)
        g.stat("styled block")
        gap = r.choice([" ", "\n", "\n\n"])
        if k == 0:
            return "\\begin{quote}%s%s%s\n\\end{quote}" % (d, gap, t), [{"t": "quote", "c": norm.restyle(n, st)}]
        if k == 1:
            return "\\begin{%s}%s%s%s\n\\end{%s}" % ((e := r.choice(["center", "flushleft", "flushright"])), d, gap, t, e), norm.restyle(n, st)
        if k == 2:
            return "\\begingroup%s%s%s%s\n\\endgroup" % (r.choice(["", " ", "\n"]), d, gap, t), norm.restyle(n, st)
        return "{%s%s%s%s}" % (d, gap, t, r.choice(["", "\n", " "])), norm.restyle(n, st)

    def wrap(g, depth):
        r = g.rng
        if r.random() < 0.12:
            # a command around exactly one thing
            c, st = r.choice([("\\textbf", "bold"), ("\\emph", "italic"), ("\\textsf", "sans-serif"), ("\\textcolor{blue}", "color=blue"), ("\\texttt", "monospace")])
            t, n = g.block("list", 1, IN) if r.random() < 0.6 else g.tabular()
            g.stat("styled block")
            return "%s{%s%s%s}" % (c, r.choice(["", "\n"]), t, r.choice(["", "\n"])), norm.restyle(n, (st,))
        return styled(g, depth)
    g.envs.append(wrap)


_check = DocCheck(p_styles, [_mix, _deep, _block, _tab, _fn, _flat], docs=5, prepare=prepare, interesting=lambda e: any(x[1] for x in e))
case = _check.case


def plan(tier):
    return {"cases": 700 if tier == "quick" else 18000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
