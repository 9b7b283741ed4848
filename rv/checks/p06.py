from .. import flow, gen, norm
from ..core import CURRENT
from ..flow import DocCheck, p_labels, judge, wrap_document

PROPERTY = "P06"
LEVEL = "exploration"
RULE = "distinct document shapes with at least one label whose owner was compared"
ASSUMPTIONS = ["documents of the generated grammar; a label of a caption belongs to its float"]
MIN_EVENTS = {"evaluations": 500, "nontrivial": 500}

_b = {"eq": 14, "table": 6, "figure": 6, "thm": 10, "algorithm": 4, "subfig": 5, "section": 14, "list": 8, "quote": 2, "layout": 3}
_mix = ({}, _b, {"labels": 0.9}, (3, 14))
_deep = ({}, _b, {"depth": 4, "labels": 0.9}, (2, 7))
_dense = ({"word": 5}, dict(_b, para=2), {"labels": 1.0}, (10, 30))
_flat = ({}, _b, {"labels": 0.9, "newlines": False}, (3, 12))
_sec = ({"fn": 6}, {"section": 30, "para": 20, "eq": 5}, {"labels": 1.0, "levels": {0: 1, 1: 4, 2: 3, 3: 3}}, (5, 30))


def raw_labels(x, out):
    """every label of the JSON with the type of the token that carries it"""
    if isinstance(x, dict):
        for l in x.get("labels") or []:
            out.append((l, x.get("type")))
        for v in x.values():
            raw_labels(v, out)
    elif isinstance(x, list):
        for v in x:
            raw_labels(v, out)
    return out


def census(obs, tex, exp, mode, extra=()):
    """no label lost, invented or given twice, on whatever kind of token"""
    want = sorted([l for _, n in norm.walk(exp) if isinstance(n, dict) for l in n.get("labels", [])] + list(extra))
    raw = raw_labels(CURRENT["raw"], [])
    obs.count("labels", len(want))
    if want != sorted(l for l, _ in raw):
        obs.fail("census", f"[{mode}] labels expected {want} observed {sorted(raw)}\n--- input ---\n{tex}", {"input": tex, "mode": mode})
    return raw


_check = DocCheck(p_labels, [_mix, _deep, _dense, _flat, _sec], docs=4, interesting=bool, after=census)
LOOSE = [({}, dict(_b, userenv=25, paragraph=0), {"labels": 0.5}, (3, 14)), ({}, {"userenv": 40, "section": 25, "quote": 6, "list": 8, "figure": 8, "table": 5, "thm": 10, "eq": 10, "paragraph": 0}, {"labels": 0.2}, (4, 20)),
         ({"fn": 15}, {"userenv": 40, "section": 10, "layout": 8, "paragraph": 0}, {"labels": 0.2, "newlines": False}, (3, 12))]


def loose(g, depth):
    """a label in the text, away from what it belongs to"""
    r = g.rng
    if depth < g.opt["depth"]:
        return g.block("para", depth)
    t1, a1 = g.inline(r.randrange(1, 5), 1)
    k = g.key("here")
    g.labels.append(k)
    t2, a2 = g.inline(r.randrange(1, 4), 1) if g.maybe(0.7) else ("", [])
    n = [{"t": "loose", "labels": [k], "c": []}]
    if not g.wrapped:
        # in a fragment the words before the label have it
        w = g.word()
        t1, a1 = t1 + " " + w, a1 + [("w", w, ())]
    elif g.maybe(0.15):
        t1, a1 = "", []
    return t1 + r.choice([" ", "\n", ""]) + "\\label{%s}" % k + r.choice([" ", "\n"]) + t2, a1 + n + a2


INLINE = ("text", "citation", "ref", "url", "code", "footnote", "equation", "command")


def settle(nodes, owner, early):
    """loose labels belong to the last heading before them (or the document)"""
    out = []
    for n in nodes:
        if isinstance(n, dict):
            if n["t"] == "loose":
                if owner[0] is None:
                    early += n["labels"]
                else:
                    owner[0].setdefault("labels", []).extend(n["labels"])
                continue
            if n["t"] in ("section", "document"):
                owner[0] = n
            if n["t"] in ("section", "document", "appendix"):
                n["c"] = settle(n["c"], owner, early)
        out.append(n)
    return out


def case(i, rng, obs, tier):
    _check.case(i, rng, obs, tier)
    inline, block, opts, nb = LOOSE[i % len(LOOSE)]
    g = gen.Gen(rng, inline, block, **opts)
    g.envs.append(loose)
    g.wrapped = rng.random() < 0.6
    tex, nodes = g.blocks(rng.randrange(nb[0], nb[1] + 1), top=True)
    mode = flow.MODES[rng.randrange(len(flow.MODES))]
    exp = gen.expected(nodes)
    if g.wrapped:
        tex, exp = wrap_document(rng, tex, exp, mode)
    # in a fragment, a label before the first heading has no owner but the words before it
    early = []
    exp = settle(exp, [None], early)
    obs.count("loose labels", g.stats.get("block:userenv", 0))
    judge(obs, tex, exp, mode, p_labels, bool)
    raw = census(obs, tex, exp, mode, early)
    for l, t in raw:
        if l in early and t not in INLINE:
            obs.fail("owner", f"[{mode}] the label {l} in the text is on {t}\n--- input ---\n{tex}", {"input": tex, "mode": mode})


def plan(tier):
    return {"cases": 600 if tier == "quick" else 16000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
