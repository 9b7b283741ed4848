from ..flow import DocCheck, p_content

PROPERTY = "P03"
LEVEL = "exploration"
RULE = "distinct structural shapes of generated documents whose content was compared atom by atom"
ASSUMPTIONS = ["documents of the generated grammar; white space at token borders is not significant"]
MIN_EVENTS = {"evaluations": 500, "nontrivial": 500}

_mixed = ({}, {}, {}, (1, 9))
_deep = ({}, {"list": 12, "thm": 10, "quote": 8, "layout": 6, "table": 5}, {"depth": 4}, (1, 5))
_inline = ({"style": 14, "group": 8, "fn": 6, "legacy": 8, "color": 5, "esc": 8, "accent": 4}, {"para": 60, "list": 8}, {"depth": 4}, (1, 6))
_long = ({}, {}, {}, (12, 30))
_flat = ({}, {}, {"newlines": False}, (1, 8))
_check = DocCheck(p_content, [_mixed, _deep, _inline, _mixed, _long, _flat], docs=6)
case = _check.case


def plan(tier):
    return {"cases": 700 if tier == "quick" else 20000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
