"""Independent statement of the JSON output format (not derived from the pydantic
classes of the code under test)."""
import json
import re

STR, TOK, EITHER = "string", "tokens", "string or tokens"
NUM = re.compile(r"^\d+$")
SECNUM = re.compile(r"^(\d+|[A-Z]+)(\.\d+){0,3}$")
THMNUM = re.compile(r"^(\d+|[A-Z]+)\.\d+$")
# type: (content kind, required extra keys, optional extra keys)
TYPES = {
    "document": (EITHER, (), ("name",)), "title": (TOK, (), ()), "section": (TOK, ("title", "level"), ("numbering",)),
    "paragraph": (TOK, ("title", "level"), ("numbering",)), "abstract": (EITHER, (), ("name",)), "appendix": (TOK, (), ("name",)),
    "command": ("optional string", ("command",), ()), "text": (STR, (), ()), "quote": (EITHER, (), ("name",)),
    "environment": (EITHER, (), ("name",)), "math_env": (TOK, ("name",), ("numbering", "title", "proof")),
    "figure": (EITHER, (), ("numbering", "name")), "subfigure": (EITHER, (), ("name",)), "table": (EITHER, (), ("numbering", "name")),
    "tabular": ("table", (), ()), "caption": (TOK, (), ("title",)), "includegraphics": (STR, (), ("page",)), "includepdf": (STR, (), ("pages",)),
    "diagram": (STR, ("name",), ()), "list": (TOK, ("depth",), ("name",)), "item": (EITHER, (), ("title",)),
    "equation": (STR, (), ("align", "display", "numbering", "placeholders")), "code": (STR, (), ("title", "display")),
    "algorithm": (EITHER, (), ("name", "numbering")), "algorithmic": (STR, (), ()), "citation": ("strings", (), ("title",)),
    "ref": ("strings", (), ("title",)), "url": (STR, (), ("title",)), "footnote": (TOK, (), ()), "bibliography": ("bibitems", (), ()),
    "bibitem": (EITHER, ("format", "cite_key"), ("label", "fields")), "author": ("authors", (), ()), "email": (EITHER, (), ()),
    "affiliation": (EITHER, (), ()), "keywords": (EITHER, (), ()), "address": (EITHER, (), ()), "group": (TOK, (), ("name",)),
}
LEAKS = ["__MATH_BLOCK", "__VERBATIM", "VERBATIM_BLOCK", "|REF_", "|TABLE_STRUCT", "TABLE_STRUCT", "<PARA_BREAK>", "PARA_BREAK"]
PH = re.compile(r"___PLACEHOLDER_\d+___")
STYLE = re.compile(r"^[a-z][a-z-]*(=\S+|=\{\w+:[^{}]+\})?$")
SECTIONABLE = (None, "document", "section", "paragraph", "appendix")


def strict_loads(s):
    """JSON text -> value; NaN, Infinity and doubled keys are errors"""
    def const(x):
        raise ValueError("not JSON: " + x)

    def pairs(p):
        d = dict(p)
        if len(d) != len(p):
            raise ValueError("doubled key in object")
        return d
    return json.loads(s, parse_constant=const, object_pairs_hook=pairs)


class Checker:
    """strict: the source was a well-formed document"""

    def __init__(self, source, strict=False):
        self.bad = []
        self.strict = strict
        self.leaks = [m for m in LEAKS if m not in source]
        self.ph_ok = "PLACEHOLDER" in source
        self.n = 0
        self.types = {}

    def err(self, path, msg):
        if len(self.bad) < 20:
            self.bad.append(f"{path}: {msg}")

    def string(self, s, path, ph=False):
        if not isinstance(s, str):
            return self.err(path, f"expected a string, got {s!r:.100}")
        for m in self.leaks:
            if m in s:
                self.err(path, f"internal marker {m} in the output: {s!r:.200}")
        if not ph and not self.ph_ok and "PLACEHOLDER_" in s:
            self.err(path, f"internal placeholder in the output: {s!r:.200}")

    def document(self, data):
        if not isinstance(data, dict) or set(data) != {"tokens", "color_map"}:
            return self.err("$", f"top level must be tokens and color_map, got {list(data) if isinstance(data, dict) else type(data)}")
        cm = data["color_map"]
        if cm is not None:
            if not isinstance(cm, dict):
                self.err("$.color_map", f"not an object: {cm!r:.100}")
            else:
                for k, v in cm.items():
                    if not isinstance(v, dict) or set(v) != {"format", "value"} or not all(isinstance(x, str) for x in v.values()):
                        self.err("$.color_map." + k, f"{v!r:.100}")
        self.tokens(data["tokens"], "$.tokens", None, 0)

    def tokens(self, ts, path, parent, depth):
        if not isinstance(ts, list):
            return self.err(path, f"expected a list of tokens, got {ts!r:.100}")
        for i, t in enumerate(ts):
            self.token(t, f"{path}[{i}]", parent, depth)

    def either(self, x, path, parent, depth):
        if isinstance(x, str):
            self.string(x, path)
        else:
            self.tokens(x, path, parent, depth)

    def token(self, t, path, parent, depth):
        if not isinstance(t, dict):
            return self.err(path, f"not a token: {t!r:.100}")
        ty = t.get("type")
        if ty not in TYPES:
            return self.err(path, f"unknown token type {ty!r:.60}")
        self.n += 1
        self.types[ty] = self.types.get(ty, 0) + 1
        kind, req, opt = TYPES[ty]
        p = f"{path}({ty})"
        for k in req:
            if k not in t:
                self.err(p, f"required key {k} is missing")
        for k in t:
            if k not in ("type", "content", "styles", "labels") and k not in req and k not in opt:
                self.err(p, f"unknown key {k}")
            if t[k] is None:
                self.err(p, f"key {k} is null")
        if "content" not in t and kind != "optional string":
            return self.err(p, "no content")
        for k in ("styles", "labels"):
            if k in t:
                v = t[k]
                if not isinstance(v, list) or not v or not all(isinstance(x, str) and x for x in v):
                    self.err(p, f"{k} must be a non-empty list of strings: {v!r:.100}")
                else:
                    for x in v:
                        self.string(x, p + "." + k)
                    if self.strict and k == "styles" and not all(STYLE.match(x) for x in v):
                        self.err(p, f"odd style {v!r:.100}")
        c = t.get("content")
        q = p + ".content"
        inner = ty if ty != "group" else parent
        d = depth + (ty == "list")
        if kind == STR:
            self.string(c, q, ph=ty == "equation")
        elif kind == "optional string":
            if c is not None:
                self.string(c, q)
        elif kind == TOK:
            self.tokens(c, q, inner, d)
        elif kind == EITHER:
            self.either(c, q, inner, d)
        elif kind == "strings":
            if not isinstance(c, list) or not all(isinstance(x, str) for x in c):
                self.err(q, f"expected a list of strings: {c!r:.100}")
            else:
                for x in c:
                    self.string(x, q)
        elif kind == "bibitems":
            self.tokens(c, q, ty, d)
            if isinstance(c, list) and any(not isinstance(x, dict) or x.get("type") != "bibitem" for x in c):
                self.err(q, "bibliography with something else than bibitems")
        elif kind == "authors":
            if not isinstance(c, list):
                self.err(q, f"{c!r:.100}")
            else:
                for i, a in enumerate(c):
                    self.tokens(a, f"{q}[{i}]", ty, d)
        elif kind == "table":
            self.table(c, q, d)
        # attributes
        if "title" in t:
            self.either(t["title"], p + ".title", ty + ".title", d)
            if ty in ("section", "paragraph", "math_env", "item", "citation", "ref") and isinstance(t["title"], str):
                self.err(p, "title is a plain string")
        for k in ("name", "command", "display", "format", "cite_key", "label", "pages"):
            if k in t:
                self.string(t[k], f"{p}.{k}")
        if "level" in t and (type(t["level"]) is not int or not 0 <= t["level"] <= 6):
            self.err(p, f"level {t['level']!r}")
        if "depth" in t:
            if type(t["depth"]) is not int or t["depth"] < 1:
                self.err(p, f"depth {t['depth']!r}")
            elif self.strict and parent in SECTIONABLE + ("list", "item", "quote", "math_env") and t["depth"] != d:
                self.err(p, f"depth {t['depth']} of a list nested {d} deep")
        if "page" in t and type(t["page"]) is not int:
            self.err(p, f"page {t['page']!r}")
        if "align" in t and type(t["align"]) is not bool:
            self.err(p, f"align {t['align']!r}")
        if ty == "equation" and t.get("display", "inline") not in ("inline", "block"):
            self.err(p, f"display {t['display']!r}")
        if "fields" in t and (not isinstance(t["fields"], dict) or not all(isinstance(v, str) for v in t["fields"].values())):
            self.err(p, f"fields {t['fields']!r:.100}")
        if "proof" in t:
            self.token(t["proof"], p + ".proof", ty, d)
        if "numbering" in t:
            rx = SECNUM if ty in ("section", "paragraph") else THMNUM if ty == "math_env" else NUM
            if not isinstance(t["numbering"], str) or not rx.match(t["numbering"]):
                self.err(p, f"numbering {t['numbering']!r}")
        if ty == "equation":
            phs = t.get("placeholders", {})
            if not isinstance(phs, dict):
                self.err(p, "placeholders must be an object")
                phs = {}
            for k, v in phs.items():
                if isinstance(c, str) and c.count(k) != 1:
                    self.err(p, f"placeholder {k} occurs {c.count(k)} times in {c!r:.200}")
                self.tokens(v, f"{p}.placeholders", ty, d)
            if isinstance(c, str) and not self.ph_ok:
                for m in PH.findall(c):
                    if m not in phs:
                        self.err(p, f"placeholder {m} without an entry")
        if self.strict:
            if ty == "item" and parent != "list":
                self.err(p, f"item outside of a list, in {parent}")
            if ty == "bibitem" and parent != "bibliography":
                self.err(p, f"bibitem outside of a bibliography, in {parent}")
            if ty in ("section", "document", "appendix") and parent not in SECTIONABLE:
                self.err(p, f"{ty} inside {parent}")
            if ty == "equation" and t.get("display") != "block" and "numbering" in t:
                self.err(p, "numbered inline formula")

    def table(self, rows, path, depth):
        if not isinstance(rows, list):
            return self.err(path, f"{rows!r:.100}")
        for i, row in enumerate(rows):
            if not isinstance(row, list):
                self.err(f"{path}[{i}]", f"row {row!r:.100}")
                continue
            for j, cell in enumerate(row):
                self.cell(cell, f"{path}[{i}][{j}]", depth)

    def cell(self, cell, path, depth, spanned=False):
        if cell is None:
            return
        if isinstance(cell, str):
            return self.string(cell, path)
        if isinstance(cell, dict):
            if "type" in cell:
                return self.token(cell, path, "tabular", depth)
            if spanned or set(cell) != {"content", "rowspan", "colspan"}:
                return self.err(path, f"cell with keys {sorted(cell)}")
            for k in ("rowspan", "colspan"):
                if type(cell[k]) is not int:
                    self.err(path, f"{k} {cell[k]!r}")
                elif self.strict and cell[k] < 1:
                    self.err(path, f"{k} {cell[k]!r}")
            return self.cell(cell["content"], path, depth, True)
        if isinstance(cell, list):
            if self.strict and not cell:
                self.err(path, "empty cell is not null")
            for i, x in enumerate(cell):
                if isinstance(x, str):
                    self.string(x, path)
                else:
                    self.token(x, f"{path}[{i}]", "tabular", depth)
            return
        self.err(path, f"cell {cell!r:.100}")
