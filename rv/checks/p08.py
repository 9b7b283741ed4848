from ..flow import DocCheck, p_tables

PROPERTY = "P08"
LEVEL = "exploration"
RULE = "distinct document shapes with at least one table compared cell by cell"
ASSUMPTIONS = ["documents of the generated grammar; rows without any character (only a rule) are not rows"]
MIN_EVENTS = {"evaluations": 500, "nontrivial": 500}

_b = {"table": 40, "longtable": 20, "para": 10, "list": 3, "layout": 5, "thm": 3, "section": 3}
_small = ({}, _b, {}, (1, 4))
_rich = ({"esc": 8}, _b, {"richtable": True, "richunknown": True, "table": (7, 7)}, (1, 4))
_big = ({"word": 60}, _b, {"table": (25, 12), "depth": 1}, (1, 2))
_wide = ({}, _b, {"table": (3, 24), "richtable": True, "richunknown": True, "depth": 1}, (1, 2))
_flat = ({}, _b, {"newlines": False, "richtable": True, "richunknown": True}, (1, 4))
_style = ({"style": 20, "legacy": 10, "color": 6, "group": 10, "math": 15, "cite": 8, "ref": 8}, _b, {"depth": 3}, (1, 3))
_check = DocCheck(p_tables, [_small, _rich, _big, _wide, _flat, _style], docs=3, interesting=bool)
case = _check.case


def plan(tier):
    return {"cases": 700 if tier == "quick" else 18000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
