"""Layout monitor: documents with layout and bookkeeping commands at every place
convert as if these commands were not there."""
import re

from .. import gen, norm
from ..flow import DocCheck, full

PROPERTY = "P31"
LEVEL = "exploration"
RULE = "distinct document shapes with layout commands in them"
ASSUMPTIONS = ["the layout commands of rv/layout.py", "documents of the generated grammar"]
MIN_EVENTS = {"evaluations": 1500, "layout commands": 8000, "in formulas": 4000, "facts": 50000}

_i = {"lay": 15}
_b = {"lay": 15}
_mix = (_i, _b, {}, (2, 8))
_deep = (_i, dict(_b, list=12, quote=6, layout=8, thm=8), {"depth": 4}, (1, 5))
_tab = (_i, dict(_b, table=15, figure=10, longtable=5, subfig=3), {"depth": 2}, (1, 6))
_head = (_i, dict(_b, section=20, paragraph=6, eq=10), {}, (3, 12))
_flat = (_i, _b, {"newlines": False}, (2, 8))
_style = ({"lay": 15, "style": 15, "legacy": 10, "color": 5, "fn": 5, "group": 5}, _b, {"depth": 4}, (1, 5))
_check = DocCheck(full, [_mix, _deep, _tab, _head, _flat, _style], docs=4)


MATH = r"""\newpage \pagebreak[4] \nopagebreak \nopagebreak[3] \hfil \hfill \vfill \sloppy \relax \centering \raggedright \vspace*{-2ex} \vspace{1cm} \vspace{\baselineskip} \kern-3pt \kern.5em
\penalty-1000 \penalty0 \phantomsection \allowbreak \medskip \smallskip \bigskip \medbreak \goodbreak \allowdisplaybreaks \allowdisplaybreaks[1] \samepage \null \linebreak[2]
\noindent \indent \thispagestyle{empty} \addtocounter{equation}{1} \FloatBarrier \enlargethispage{2cm} \par \flushbottom \vskip2pt \clearpage""".split()
MARK = re.compile("\x01(\\d+)\x02")


def formula(g, depth):
    """layout in a formula, as a mark that `finish` replaces"""
    r = g.rng
    g.stat("math:lay")
    return r.choice(["", "x", "\\alpha"]) + "".join("\x01%d\x02" % r.randrange(len(MATH)) + r.choice(["", "", " "]) for _ in range(r.choice([1, 1, 2]))) + r.choice("abc7")


def bare(x):
    if isinstance(x, dict):
        return {k: bare(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(bare(v) for v in x)
    return norm.mtex(MARK.sub(" ", x)) if isinstance(x, str) and "\x02" in x else x


def finish(g, tex, exp):
    def put(m):
        t = MATH[int(m.group(1))]
        return t if gen.BARE.match(t) and tex[m.end():m.end() + 1] == "7" else t + " "
    return MARK.sub(put, tex), bare(exp)


_check.finish = finish


def _prepare(g):
    _check.last.append(g)
    if g.maybe(0.5):
        g.mathmacros.append(formula)
        g.wb["algorithm"] = 0  # pseudocode stays as it is written


_check.last = []
_check.prepare = _prepare


def case(i, rng, obs, tier):
    _check.last.clear()
    _check.case(i, rng, obs, tier)
    for g in _check.last:
        obs.count("in formulas", g.stats.get("math:lay", 0))
        obs.count("layout commands", g.stats.get("inline:lay", 0) + g.stats.get("block:lay", 0))


def plan(tier):
    return {"cases": 2500 if tier == "quick" else 20000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
