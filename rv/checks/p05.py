from .. import norm
from ..flow import DocCheck, p_numbers

PROPERTY = "P05"
LEVEL = "exploration"
RULE = "distinct document shapes with at least one numbered element whose numbers were compared"
ASSUMPTIONS = ["documents of the generated grammar; one number per display environment, as the package counts"]
MIN_EVENTS = {"evaluations": 500, "nontrivial": 500}

_b = {"eq": 20, "table": 8, "figure": 8, "thm": 14, "algorithm": 6, "subfig": 5, "section": 12, "list": 4, "quote": 3, "layout": 4, "appendix": 2}
_mix = ({}, _b, {}, (3, 16))
_long = ({"word": 5}, dict(_b, para=5), {"depth": 1}, (25, 60))
_deep = ({}, dict(_b, section=4), {"depth": 4}, (2, 8))
_thm = ({}, {"para": 4, "thm": 30, "section": 15, "appendix": 2}, {"depth": 1, "levels": {1: 4, 2: 3, 3: 1, 0: 1}, "star": 0.3}, (5, 35))
_eq = ({}, {"para": 4, "eq": 30, "section": 4, "list": 6, "thm": 6}, {"depth": 2}, (5, 25))
_fl = ({}, {"para": 4, "table": 10, "figure": 10, "algorithm": 10, "subfig": 8, "section": 4}, {"depth": 1}, (5, 25))
_check = DocCheck(p_numbers, [_mix, _long, _deep, _thm, _eq, _fl], docs=3, interesting=lambda e: any(x[2] for x in e))
_check.interesting = lambda e: any(x[2] for x in e)
case = _check.case


def plan(tier):
    return {"cases": 600 if tier == "quick" else 16000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
