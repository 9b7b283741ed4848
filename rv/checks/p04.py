from ..flow import DocCheck, p_outline, plain_words
from .. import norm

PROPERTY = "P04"
LEVEL = "exploration"
RULE = "distinct heading trees (shape of the expected document) compared with the observed tree"
ASSUMPTIONS = ["documents of the generated grammar; chapters and sections share level 1, as the package defines it"]
MIN_EVENTS = {"evaluations": 500, "nontrivial": 400}

_outline = {"para": 20, "section": 40, "paragraph": 8, "eq": 2, "list": 2, "table": 1, "figure": 2, "thm": 3,
            "quote": 1, "appendix": 2, "verbatim": 1}
_std = ({}, _outline, {"depth": 1}, (3, 25))
_parts = ({}, _outline, {"depth": 1, "levels": {0: 2, 1: 5, 2: 4, 3: 3}, "star": 0.3}, (5, 40))
_deep = ({}, _outline, {"depth": 1, "levels": {1: 2, 2: 4, 3: 6}}, (5, 40))
_app = ({"word": 1}, {"para": 3, "section": 60, "appendix": 6, "paragraph": 2}, {"depth": 1, "levels": {1: 8, 2: 2}, "star": 0.05}, (40, 90))
_para = ({}, {"para": 20, "section": 10, "paragraph": 30, "list": 3}, {"depth": 1}, (5, 25))
_chap = ({}, _outline, {"depth": 1, "chapter": 0.5}, (3, 20))
_doc = ({}, {"section": 14, "appendix": 1}, {}, (4, 14))
_check = DocCheck(p_outline, [_std, _parts, _deep, _app, _para, _chap, _doc], docs=4, wrap=0.4,
                  interesting=lambda e: any(isinstance(n, dict) and n["t"] == "section" for _, n in norm.walk(_raw(e))))


def _raw(e):
    return [dict(n, c=_raw(n["c"]), title=[]) if isinstance(n, dict) else ("w", n, ()) for n in e]


case = _check.case


def plan(tier):
    return {"cases": 700 if tier == "quick" else 20000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
