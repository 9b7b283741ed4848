"""Canonical form of formulas: the tree TeX would read, with groups that are no
arguments dissolved.  Two sources with the same tree mean the same formula."""
import re

TOK = re.compile(r"\\[a-zA-Z@]+\*?|\\.|[{}^_&]|[0-9]|\S", re.S)
ARITY = {"frac": 2, "dfrac": 2, "tfrac": 2, "binom": 2, "sqrt": 1, "hat": 1, "bar": 1, "tilde": 1, "vec": 1, "dot": 1, "overline": 1, "underline": 1,
         "widehat": 1, "widetilde": 1, "mathbf": 1, "mathcal": 1, "mathbb": 1, "mathrm": 1, "mathfrak": 1, "mathsf": 1, "boldsymbol": 1, "operatorname": 1, "operatorname*": 1,
         "text": 1, "textbf": 1, "underbrace": 1, "textcolor": 2, "begin": 1, "end": 1, "overset": 2, "underset": 2, "stackrel": 2}


def tree(tex):
    toks = TOK.findall(tex)
    out, i = seq(toks, 0, None)
    return out


def seq(t, i, stop):
    out = []
    while i < len(t):
        x = t[i]
        if x == stop:
            return out, i + 1
        n, i = unit(t, i, False)
        out += n
    return out, i


def unit(t, i, arg):
    """one unit; as an argument a group is kept together"""
    if i >= len(t):
        return ["<missing>"], i
    x = t[i]
    if x == "{":
        n, i = seq(t, i + 1, "}")
        return n, i
    if x in "^_":
        n, i = unit(t, i + 1, True)
        return [(x, tuple(n))], i
    if x[0] == "\\" and x[1:] in ARITY:
        args = []
        i += 1
        if x == "\\sqrt" and i < len(t) and t[i] == "[":
            n, i = seq(t, i + 1, "]")
            args.append(("opt", tuple(n)))
        for _ in range(ARITY[x[1:]]):
            n, i = unit(t, i, True)
            args.append(tuple(n))
        return [(x, tuple(args))], i
    return [x], i + 1


def retree(nodes):
    """normal form with all formulas replaced by their trees"""
    out = []
    for n in nodes:
        if isinstance(n, tuple):
            if n[0] == "m":
                out.append(("m", tree(n[1])))
            elif n[0] == "fn":
                out.append(("fn", retree(n[1])))
            elif n[0] in ("ref", "cite", "url") and n[2]:
                out.append((n[0], n[1], retree(n[2])))
            else:
                out.append(n)
            continue
        n = dict(n, c=retree(n["c"]))
        if n["t"] == "equation":
            n["tex"] = tree(n["tex"])
            if "ph" in n:
                n["ph"] = {k: retree(v) for k, v in n["ph"].items()}
        if isinstance(n.get("title"), list):
            n["title"] = retree(n["title"])
        if n["t"] == "tabular":
            n["rows"] = [[(a, b, retree(c)) for a, b, c in row] for row in n["rows"]]
        if n["t"] == "bibliography":
            n["items"] = [dict(b, c=retree(b["c"])) for b in n["items"]]
        if n["t"] == "author":
            n["authors"] = [retree(a) for a in n["authors"]]
        out.append(n)
    return out
