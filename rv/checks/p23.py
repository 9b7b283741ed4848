"""Monitor for characters: accents, letter and symbol commands print their
Unicode character, everything typed as Unicode stays as it is."""
from ..flow import DocCheck, full

PROPERTY = "P23"
LEVEL = "exploration"
RULE = "distinct document shapes with accents, letters and symbols in them"
ASSUMPTIONS = ["the commands of rv/chars.py", "documents of the generated grammar"]
MIN_EVENTS = {"evaluations": 4000, "words with characters": 10000, "facts": 50000}

_o = {"richaccent": True}
_i = {"accent": 30}
_mix = (_i, {}, _o, (2, 8))
_deep = (_i, {"list": 12, "quote": 6, "layout": 8, "thm": 8}, dict(_o, depth=4), (1, 5))
_tab = (_i, {"table": 15, "figure": 10, "longtable": 5, "subfig": 3}, dict(_o, depth=2, richtable=True), (1, 6))
_head = (_i, {"section": 20, "paragraph": 6, "eq": 5}, _o, (3, 12))
_flat = (_i, {}, dict(_o, newlines=False), (2, 8))
_style = ({"accent": 30, "style": 15, "legacy": 10, "color": 5, "fn": 5, "group": 5, "href": 5, "hyperref": 2}, {}, dict(_o, depth=4), (1, 5))
_check = DocCheck(full, [_mix, _deep, _tab, _head, _flat, _style], docs=4, prepare=lambda g: _last.append(g))
_last = []


def case(i, rng, obs, tier):
    _last.clear()
    _check.case(i, rng, obs, tier)
    for g in _last:
        obs.count("words with characters", g.stats.get("inline:accent", 0))


def plan(tier):
    return {"cases": 1500 if tier == "quick" else 30000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
