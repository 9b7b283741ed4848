"""Normal form shared by the reference model and the observed output.

inline atoms
  ("w", word, styles)        styles: tuple in nesting order without repeats
  ("m", tex)                 inline mathematics, whitespace removed
  ("ref", keys, title)  ("cite", keys, title)  ("url", target, title)
  ("fn", nodes)  ("code", text)  ("cmd", name, content)
block nodes
  {"t": type, "c": [nodes], ...attributes}
"""
import re

WORD = re.compile(r"\w+|[^\w\s]", re.UNICODE)


def words(text):
    return WORD.findall(text)


_MT = re.compile(r"(\\[a-zA-Z]+)\s+(?=[a-zA-Z])|(\\\S)|\s+")


def mtex(s):
    """a formula without the white space that means nothing"""
    return _MT.sub(lambda m: m.group(1) + " " if m.group(1) else m.group(2) or "", s)


def sty(*groups):
    out = []
    for g in groups:
        for s in g or ():
            if s not in out:
                out.append(s)
    return tuple(out)


def norm_list(tokens, styles=()):
    out = []
    for t in tokens or []:
        out.extend(norm(t, styles))
    return out


def norm_any(x, styles=()):
    if x is None:
        return []
    if isinstance(x, str):
        return [("w", w, styles) for w in words(x)]
    if isinstance(x, list):
        return norm_list(x, styles)
    return norm(x, styles)


def norm(t, styles=()):
    if t is None:
        return []
    if isinstance(t, str):
        return [("w", w, styles) for w in words(t)]
    if isinstance(t, list):
        return norm_list(t, styles)
    ty = t.get("type")
    st = sty(styles, t.get("styles"))
    c = t.get("content")
    if ty == "text":
        return [("w", w, st) for w in words(c)]
    if ty == "group":
        if t.get("labels"):
            return [{"t": "group", "labels": t["labels"], "c": norm_any(c, st)}]
        return norm_any(c, st)
    if ty == "equation":
        if t.get("display") != "block":
            return [("m", mtex(c))]
        n = {"t": "equation", "tex": mtex(c), "c": []}
        for k in ("numbering", "labels", "align"):
            if k in t:
                n[k] = t[k]
        if "placeholders" in t:
            n["ph"] = {k: norm_list(v) for k, v in t["placeholders"].items()}
        return [n]
    if ty in ("ref", "citation"):
        title = norm_any(t["title"]) if t.get("title") else None
        return [("ref" if ty == "ref" else "cite", tuple(c), tuple(title) if title else None)]
    if ty == "url":
        title = norm_any(t["title"]) if t.get("title") else None
        return [("url", c, tuple(title) if title else None)]
    if ty == "footnote":
        return [("fn", norm_any(c))]
    if ty == "code":
        if t.get("display") == "inline":
            return [("code", c)]
        n = {"t": "code", "tex": c, "c": []}
        if t.get("title"):
            n["title"] = t["title"]
        return [n]
    if ty == "command":
        return [("cmd", t.get("command"), c)]
    if ty == "tabular":
        return [{"t": "tabular", "rows": [[cell(x, st) for x in r] for r in c], "c": []}]
    if ty == "bibliography":
        items = []
        for b in c:
            items.append({"key": b["cite_key"], "format": b.get("format"), "label": b.get("label"),
                          "fields": b.get("fields") or {}, "c": norm_any(b["content"], st)})
        return [{"t": "bibliography", "items": items, "c": []}]
    n = {"t": ty}
    for k in ("numbering", "labels", "name", "level", "depth", "page", "pages"):
        if k in t:
            n[k] = t[k]
    if "title" in t and t["title"] is not None:
        n["title"] = norm_any(t["title"])
    if ty == "author":
        n["authors"] = [norm_any(a) for a in c]
        n["c"] = []
    elif ty in ("includegraphics", "includepdf", "diagram", "algorithmic"):
        n["tex"] = c.strip()
        n["c"] = []
    else:
        n["c"] = norm_any(c, st if ty in ("quote", "environment", "abstract", "list", "item", "math_env") else styles)
    return [n]


def cell(x, styles=()):
    """-> (rowspan, colspan, nodes)"""
    if isinstance(x, dict) and "type" not in x:
        return (x.get("rowspan", 1), x.get("colspan", 1), norm_any(x.get("content"), styles))
    return (1, 1, norm_any(x, styles))


def restyle(nodes, styles):
    """the same nodes inside of something with these styles"""
    out = []
    for n in nodes:
        if isinstance(n, tuple):
            out.append((n[0], n[1], sty(styles, n[2])) if n[0] in ("w", "acc") else n)
            continue
        n = dict(n)
        if n.get("rows"):
            n["rows"] = [[(a, b, restyle(x, styles)) for a, b, x in r] for r in n["rows"]]
        if n.get("items"):
            n["items"] = [dict(b, c=restyle(b["c"], styles)) for b in n["items"]]
        if n["t"] in ("quote", "environment", "abstract", "list", "item", "math_env", "group"):
            n["c"] = restyle(n["c"], styles)
        out.append(n)
    return out


# ---- traversals ------------------------------------------------------
def walk(nodes, path=()):
    """pre-order (path, node) over inline atoms and blocks, including titles,
    footnotes, cells, bibliography entries."""
    for n in nodes:
        yield path, n
        if isinstance(n, tuple):
            if n[0] == "fn":
                yield from walk(n[1], path + ("fn",))
            elif n[0] in ("ref", "cite", "url") and n[2]:
                yield from walk(n[2], path + (n[0] + ".title",))
        else:
            if isinstance(n.get("title"), list):
                yield from walk(n["title"], path + (n["t"] + ".title",))
            if n["t"] == "tabular":
                for i, r in enumerate(n["rows"]):
                    for j, (_, _, cn) in enumerate(r):
                        yield from walk(cn, path + (f"cell",))
            if n["t"] == "bibliography":
                for b in n["items"]:
                    yield from walk(b["c"], path + ("bibitem",))
            if n["t"] == "author":
                for a in n["authors"]:
                    yield from walk(a, path + ("author",))
            yield from walk(n["c"], path + (n["t"],))


def first_diff(a, b, path=""):
    """Human-readable first difference of two comparable structures, or None."""
    if type(a) != type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return f"{path}: expected {a!r:.300} observed {b!r:.300}"
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                return f"{path}.{k}: unexpected {b[k]!r:.300}"
            if k not in b:
                return f"{path}.{k}: missing, expected {a[k]!r:.300}"
            d = first_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        if len(a) != len(b):
            i = min(len(a), len(b))
            if len(a) > len(b):
                return f"{path}[{i}]: missing, expected {a[i]!r:.300}"
            return f"{path}[{i}]: unexpected {b[i]!r:.300}"
        return None
    if a != b:
        return f"{path}: expected {a!r:.300} observed {b!r:.300}"
    return None
