from ..flow import DocCheck, p_code, plain_words

PROPERTY = "P11"
LEVEL = "exploration"
RULE = "distinct document shapes with at least one code or diagram block"
ASSUMPTIONS = ["code blocks do not contain the end marker of an environment they are in; leading and trailing white space of a block is not significant"]
MIN_EVENTS = {"evaluations": 500, "nontrivial": 500}

_b = {"verbatim": 30, "diagram": 8, "algorithm": 8, "para": 20, "section": 4, "list": 3, "quote": 4, "layout": 3, "eq": 2}
_i = {"verb": 12}


def proj(nodes):
    # code exactly; and the words around it, so that a block cannot swallow or
    # leak text
    return {"code": p_code(nodes), "words": plain_words(nodes)}


_mix = (_i, _b, {"richcode": True, "depth": 1}, (2, 8))
_many = (_i, {"verbatim": 40, "para": 20, "diagram": 10}, {"richcode": True, "depth": 1}, (14, 36))
_top = (_i, {"verbatim": 30, "para": 20, "section": 5}, {"richcode": True}, (2, 10))
_inline = ({"verb": 40}, {"para": 40, "section": 3}, {"richcode": True}, (2, 8))
_flat = (_i, {"verbatim": 30, "para": 20}, {"richcode": True, "newlines": False}, (2, 8))
_check = DocCheck(proj, [_mix, _many, _top, _inline, _flat], docs=4, interesting=lambda e: e["code"])
case = _check.case


def plan(tier):
    return {"cases": 600 if tier == "quick" else 16000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
