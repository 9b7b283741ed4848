from ..flow import DocCheck, p_lists

PROPERTY = "P25"
LEVEL = "exploration"
RULE = "distinct document shapes with at least one list"
ASSUMPTIONS = ["documents of the generated grammar, list nesting up to 7"]
MIN_EVENTS = {"evaluations": 500, "nontrivial": 400}

_b = {"list": 40, "para": 20, "eq": 3, "verbatim": 2, "thm": 5, "quote": 5, "layout": 4, "section": 3}
_mix = ({}, _b, {"depth": 3}, (1, 6))
_deep = ({"word": 60}, {"list": 60, "para": 5, "quote": 4, "layout": 3}, {"depth": 7}, (1, 3))
_flat = ({}, _b, {"depth": 3, "newlines": False}, (1, 6))
_lab = ({}, _b, {"depth": 2, "labels": 1.0}, (1, 6))
_check = DocCheck(p_lists, [_mix, _deep, _flat, _lab], docs=4, interesting=lambda e: any(isinstance(x, dict) for x in e))
case = _check.case


def plan(tier):
    return {"cases": 600 if tier == "quick" else 16000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
