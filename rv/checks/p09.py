from ..flow import DocCheck, p_math

PROPERTY = "P09"
LEVEL = "exploration"
RULE = "distinct document shapes with at least one formula"
ASSUMPTIONS = ["documents of the generated grammar; white space inside mathematics is not significant; labels are moved out of formulas"]
MIN_EVENTS = {"evaluations": 500, "nontrivial": 500}

_b = {"eq": 25, "table": 3, "figure": 3, "thm": 6, "list": 5, "layout": 3, "section": 4, "quote": 3}
_i = {"math": 25, "pmath": 8}
_mix = (_i, _b, {}, (2, 10))
_deep = (_i, _b, {"depth": 4}, (1, 6))
_inl = (dict(_i, style=15, legacy=8, color=5, group=8, fn=8), {"para": 60, "table": 6, "section": 6}, {"depth": 4}, (2, 8))
_many = (dict(_i, word=10), {"para": 30, "eq": 30}, {"depth": 1}, (10, 30))
_flat = (_i, _b, {"newlines": False}, (2, 8))
_check = DocCheck(p_math, [_mix, _deep, _inl, _many, _flat], docs=4, interesting=bool)
case = _check.case


def plan(tier):
    return {"cases": 600 if tier == "quick" else 16000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
