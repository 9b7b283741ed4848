"""Monitor for unknown commands and environments: kept with name and content at
their place, whatever their name resembles and wherever they stand."""
from ..flow import DocCheck, full
from ..fuzz import CMDS, ENVS

PROPERTY = "P30"
LEVEL = "exploration"
RULE = "distinct document shapes with unknown commands or environments in them"
ASSUMPTIONS = ["unknown names end in letters no known command has", "documents of the generated grammar"]
MIN_EVENTS = {"evaluations": 4000, "unknown commands": 8000, "unknown environments": 500, "facts": 50000}

MORE = r"""sum int alpha text textsuperscript textnormal mathbf mathrm operatorname left right big displaystyle limits bibliographystyle usepackage documentclass
thanks footnote footnotemark caption label ref cite if ifx else fi then foreach let def newcommand begin end item and url href verb bf it rm tt sc sf em Large tiny small
normalsize centering vspace hspace vfill noindent par smallskip quad input include appendix part chapter section subsection paragraph title author date maketitle
abstract figure table tabular hline cline toprule multicolumn multirow includegraphics epsfig color textcolor definecolor mbox hbox vbox fbox makebox raisebox phantom
equation align matrix frac sqrt bar hat tilde vec dot ddot acute grave u v H t c d b r k o O l L ss ae oe aa i j S P dag copyright pounds dots ldots cdots
textit textbf texttt textsc emph underline uline em bm boldsymbol keywords email address affiliation institute bibitem newblock printbibliography nocite captionof
subfloat subfigure tikz draw node usetikzlibrary LaTeX TeX today qty num SI si ce cref Cref autoref nameref eqref pageref hyperref vref today thepage arabic roman
newtheorem theoremstyle newenvironment newif iftrue iffalse csname endcsname expandafter noexpand relax protect string the value setcounter newcounter newlength
setlength skip kern penalty rule strut null hfil hfill break pagebreak newpage clearpage linebreak newline""".split()
NAMES = sorted({c.strip("\\*") for c in CMDS if c.strip("\\*").isalpha()} | set(MORE))
NAMES = [n for n in NAMES if not n.startswith("end")]  # \\foo ... \\endfoo is an environment
ENVN = sorted({e.strip("*") for e in ENVS})


def mathunknown(g, depth):
    r = g.rng
    c = "\\" + (r.choice(NAMES) + r.choice(["zq", "qz", "Zq"]) if r.random() < 0.6 else "zz" + r.choice("abcxyz") * 3)
    return c + r.choice([" ", "{%s}" % g.math(0), "{%s}{%s}" % (r.choice("abc"), r.choice("xyz")), "_{%s}" % r.choice("ijk"), "^2"])


def prepare(g):
    g.mathmacros = [mathunknown] if g.rng.random() < 0.6 else []
    g.opt["richunknown"] = g.rng.random() < 0.4
    _last.append(g)


_last = []
_o = {"unknowns": NAMES, "envnames": ENVN}
_i = {"unknown": 25}
_b = {"unkenv": 12}
_mix = (_i, _b, _o, (2, 8))
_deep = (_i, {"unkenv": 20, "list": 12, "quote": 6, "layout": 8, "thm": 8}, dict(_o, depth=4), (1, 5))
_tab = (_i, dict(_b, table=15, figure=10, longtable=5, subfig=3), dict(_o, depth=2), (1, 6))
_head = (_i, {"section": 20, "paragraph": 6, "eq": 10, "unkenv": 5}, _o, (3, 12))
_flat = (_i, _b, dict(_o, newlines=False), (2, 8))
_style = ({"unknown": 25, "style": 15, "legacy": 10, "color": 5, "fn": 5, "group": 5}, _b, dict(_o, depth=4), (1, 5))
_check = DocCheck(full, [_mix, _deep, _tab, _head, _flat, _style], docs=4, prepare=prepare)


def case(i, rng, obs, tier):
    _last.clear()
    _check.case(i, rng, obs, tier)
    for g in _last:
        obs.count("unknown commands", g.stats.get("inline:unknown", 0))
        obs.count("unknown environments", g.stats.get("block:unkenv", 0))


def plan(tier):
    return {"cases": 2000 if tier == "quick" else 30000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
