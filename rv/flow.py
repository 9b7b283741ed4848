"""Workload + oracle plumbing shared by the document checks.

A document check = generator options + a projection of the normal form that keeps
exactly what the property talks about.  The oracle compares the projection of the
structure written down by the generator with that of the structure observed in
the JSON produced by the real code.
"""
import os
import shutil
import tempfile

from . import gen, norm, target
from .core import CURRENT, Unreadable
from .layout import BLOCK

SCRATCH = {"dir": None}


def scratch():
    if SCRATCH["dir"] is None or SCRATCH.get("pid") != os.getpid():
        SCRATCH["dir"] = tempfile.mkdtemp(prefix="rv_")
        SCRATCH["pid"] = os.getpid()
    return SCRATCH["dir"]


def drop_scratch():
    if SCRATCH["dir"] and SCRATCH.get("pid") == os.getpid():
        shutil.rmtree(SCRATCH["dir"], ignore_errors=True)
        SCRATCH["dir"] = None


MODES = ("plain", "pre", "file")


def observe(tex, mode, reader=None):
    """run the real code -> canonical normal form"""
    if mode == "file":
        path = os.path.join(scratch(), "main.tex")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(tex)
        CURRENT["input"] = tex
        out = target.convert_file(path, reader)["tokens"]
    else:
        out = target.convert(tex, mode == "pre")
    CURRENT["raw"] = out
    return normal(out)


def normal(out):
    """canonical normal form of JSON tokens produced by the code under test"""
    try:
        return gen.canon(norm.norm_list(out))
    except Exception as e:
        raise Unreadable(f"cannot read the output: {type(e).__name__}: {e}; output {str(out)[:2000]}; input {str(CURRENT.get('input'))[:2000]}")


PREAMBLE = r"""\usepackage{zedzoo}
\usepackage[zed]{zedzoo}
\usepackage[zed, zoo={a,b}]{zed,zoo}
\usepackage [zed] {zedzoo} [2020/01/01]
\usepackage{zed, zoo}
\RequirePackage{zedzoo}[2020/01/01 v2]
% \usepackage{zedzoo}
%\begin{document}
\usepackage[utf8]{inputenc}
\usepackage[T1]{fontenc}
\usepackage[margin=1in]{geometry}
\usepackage[style=numeric,backend=biber]{biblatex}
\usepackage[square,numbers]{natbib}""".split("\n")
PREAMBLE += BLOCK


def wrap_document(r, tex, exp, mode="pre"):
    """\\documentclass + document environment around a document (the preamble
    commands are only removed by the preprocessor)"""
    pre = "" if mode == "plain" else r.choice(["", "\\documentclass{article}\n", "\\documentclass[11pt]{amsart}\n\\usepackage{amsmath,graphicx}\n", None])
    if pre is None:
        pre = r.choice(["", "", "\\NeedsTeXFormat{LaTeX2e}[1995/12/01]\n", "% !TEX program = pdflatex\n", "\\RequirePackage{zedzoo}\n"])
        pre += r.choice(["\\documentclass[a4paper,\n 12pt]{article}\n", "\\documentclass{book}\n\n", "\\documentclass [twocolumn] {article}%\n"])
        pre += "".join(r.choice(PREAMBLE) + r.choice(["\n", "\n\n", " % zed\n", "%\n"]) for _ in range(r.randrange(8)))
    return pre + "\\begin{document}\n" + tex + "\n\\end{document}\n", [{"t": "document", "c": exp}]


def shape(nodes, depth=0):
    """structural fingerprint, for counting distinct behaviours"""
    out = []
    for n in nodes:
        if isinstance(n, tuple):
            s = n[0] + ("+" if n[0] == "w" and n[2] else "")
            if not out or out[-1] != s:
                out.append(s)
        else:
            out.append((n["t"], n.get("name"), shape(n["c"], depth + 1) if depth < 4 else ()))
    return tuple(out)


class DocCheck:
    """proj(nodes) -> comparable; gens: list of (inline, block, opts, nblocks)"""

    def __init__(self, proj, gens, modes=MODES, docs=8, wrap=0.3, prepare=None, interesting=None, key=None, after=None, finish=None):
        self.after, self.finish = after, finish
        self.proj, self.gens, self.modes, self.docs = proj, gens, modes, docs
        self.wrap, self.prepare, self.interesting = wrap, prepare, interesting
        self.key = key or (lambda tex, d: "diff")

    def case(self, i, rng, obs, tier):
        for k in range(self.docs):
            inline, block, opts, nb = self.gens[(i * self.docs + k) % len(self.gens)]
            g = gen.Gen(rng, inline, block, **opts)
            if self.prepare:
                self.prepare(g)
            n = rng.randrange(nb[0], nb[1] + 1)
            tex, nodes = g.blocks(n, top=True)
            tex = "".join(g.preamble) + tex
            exp = gen.expected(nodes)
            if self.finish:
                tex, exp = self.finish(g, tex, exp)
            mode = self.modes[rng.randrange(len(self.modes))]
            if rng.random() < self.wrap:
                tex, exp = wrap_document(rng, tex, exp, mode)
            judge(obs, tex, exp, mode, self.proj, self.interesting)
            if self.after:
                self.after(obs, tex, exp, mode)


def judge(obs, tex, exp, mode, proj, interesting=None, key="diff"):
    got = observe(tex, mode)
    e = proj(exp)
    try:
        o = proj(got)
    except Exception as x:
        raise Unreadable(f"cannot read the output: {type(x).__name__}: {x}; output {str(got)[:2000]}; input {tex[:2000]}")
    d = norm.first_diff(e, o)
    obs.ev()
    obs.count("mode:" + mode)
    obs.count("facts", size(e))
    if interesting is None or interesting(e):
        obs.count("nontrivial")
        obs.seen("shape", shape(exp))
    obs.sample({"mode": mode, "input": tex[:400], "facts": str(e)[:400]})
    if d:
        obs.fail(key, f"[{mode}] {d}\n--- input ---\n{tex}", {"input": tex, "mode": mode})
    return got


def size(x):
    if isinstance(x, dict):
        return sum(size(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return sum(size(v) for v in x) or 1
    return 1


# ---- projections -----------------------------------------------------
def plain_words(nodes):
    """all words / formulas / keys below nodes, in order, without attributes"""
    out = []
    for _, n in norm.walk(nodes):
        if isinstance(n, tuple):
            if n[0] == "w":
                out.append(n[1])
            elif n[0] == "m":
                out.append(n[1])
            elif n[0] in ("ref", "cite", "url", "code", "cmd"):
                out.append(repr(n[1]))
        elif "tex" in n:
            out.append(n["tex"])
    return out


def p_content(nodes):
    """content, order and container; no styles, numbers or labels"""
    out = []
    for n in nodes:
        if isinstance(n, tuple):
            if n[0] == "w":
                out.append(n[1])
            elif n[0] == "fn":
                out.append(("fn", p_content(n[1])))
            elif n[0] in ("ref", "cite", "url"):
                out.append((n[0], n[1], p_content(n[2]) if n[2] else None))
            else:
                out.append(n)
        else:
            m = {"t": n["t"], "c": p_content(n["c"])}
            if n.get("name") is not None and n["t"] != "math_env":
                m["name"] = n["name"]
            if "tex" in n:
                m["tex"] = n["tex"]
            if n.get("title") is not None:
                m["title"] = p_content(n["title"]) if isinstance(n["title"], list) else n["title"]
            if n["t"] == "tabular":
                m["cells"] = [p_content(c) for row in n["rows"] for _, _, c in row]
            if n["t"] == "bibliography":
                m["items"] = [(b["key"], p_content(b["c"])) for b in n["items"]]
            if n["t"] == "author":
                m["authors"] = [p_content(a) for a in n["authors"]]
            out.append(m)
    return out


def p_outline(nodes):
    """headings: kind, level, number, title; and what text is under which heading"""
    out = []
    for n in nodes:
        if isinstance(n, dict) and n["t"] in ("section", "paragraph", "appendix", "document", "bibliography"):
            m = {"t": n["t"]}
            for k in ("level", "numbering"):
                if n.get(k) is not None:
                    m[k] = n[k]
            if n.get("title"):
                m["title"] = plain_words(n["title"])
            m["c"] = p_outline(n["c"])
            out.append(m)
        else:
            out += plain_words([n])
    return out


COUNTED = ("equation", "figure", "table", "algorithm", "math_env", "subfigure", "subtable")


def p_numbers(nodes):
    """every countable element in document order with its number"""
    out = []
    for path, n in norm.walk(nodes):
        if isinstance(n, dict) and n["t"] in COUNTED:
            ident = plain_words([n])
            out.append((n["t"], n.get("name") if n["t"] == "math_env" else None,
                        n.get("numbering"), " ".join(ident[:6])))
    return out


def p_labels(nodes):
    out = []
    for path, n in norm.walk(nodes):
        if isinstance(n, dict) and n.get("labels"):
            out.append((n["t"], n.get("name"), tuple(n["labels"]), " ".join(plain_words([n])[:6])))
    return out


def p_links(nodes):
    """references, citations, links and footnotes with the word before them"""
    out, last = [], None
    for path, n in norm.walk(nodes):
        if isinstance(n, tuple):
            if n[0] in ("ref", "cite", "url"):
                out.append((n[0], n[1], tuple(plain_words(n[2])) if n[2] else None, last, path[-1:]))
            elif n[0] == "fn":
                out.append(("fn", tuple(plain_words(n[1])), last, path[-1:]))
            elif n[0] == "w":
                last = n[1]
    return out


def p_tables(nodes):
    out = []
    for path, n in norm.walk(nodes):
        if isinstance(n, dict) and n["t"] == "tabular":
            out.append([[(r, c, p_content(x)) for r, c, x in row] for row in n["rows"]])
    return out


def p_math(nodes):
    out, last = [], None
    for path, n in norm.walk(nodes):
        if isinstance(n, tuple):
            if n[0] == "m":
                out.append(("inline", n[1], last, path[-1:]))
            elif n[0] == "w":
                last = n[1]
        elif n["t"] == "equation":
            out.append(("block", n["tex"], bool(n.get("align")), last, path[-1:]))
    return out


def p_code(nodes):
    out = []
    for path, n in norm.walk(nodes):
        if isinstance(n, tuple):
            if n[0] == "code":
                out.append(("inline", n[1]))
        elif n["t"] in ("code", "diagram", "algorithmic"):
            out.append((n["t"], n.get("name"), n["tex"], n.get("title")))
    return out


def p_styles(nodes):
    """words with their styles (order of nesting not significant)"""
    out = []
    for path, n in norm.walk(nodes):
        if isinstance(n, tuple) and n[0] == "w":
            out.append((n[1], tuple(sorted(n[2]))))
    return out


def p_lists(nodes):
    def items(n):
        out = []
        for x in n["c"]:
            if isinstance(x, dict) and x["t"] == "item":
                out.append({"title": plain_words(x["title"]) if x.get("title") else None,
                            "labels": x.get("labels"), "c": rec(x["c"])})
            else:
                out.append(rec([x]))
        return out

    def rec(ns):
        out = []
        for n in ns:
            if isinstance(n, dict) and n["t"] == "list":
                out.append({"list": n.get("name"), "depth": n.get("depth"), "items": items(n)})
            elif isinstance(n, dict):
                out.append((n["t"], rec(n["c"]), plain_words([dict(n, c=[])])))
            else:
                out += plain_words([n])
        return out
    return [x for x in rec(nodes)]


def full(nodes):
    """everything the reference model knows, order of style nesting aside"""
    out = []
    for n in nodes:
        if isinstance(n, tuple):
            if n[0] == "w":
                out.append(("w", n[1], tuple(sorted(n[2]))))
            elif n[0] == "fn":
                out.append(("fn", full(n[1])))
            elif n[0] in ("ref", "cite", "url"):
                out.append((n[0], n[1], tuple(plain_words(n[2])) if n[2] else None))
            else:
                out.append(n)
            continue
        m = {k: v for k, v in n.items() if v not in (None, [], False)}
        m["c"] = full(n["c"])
        if isinstance(n.get("title"), list):
            m["title"] = full(n["title"])
        if n["t"] == "tabular":
            m["rows"] = [[(a, b, full(c)) for a, b, c in row] for row in n["rows"]]
        if n["t"] == "bibliography":
            m["items"] = [dict(i, c=full(i["c"])) for i in n["items"]]
        if n["t"] == "author":
            m["authors"] = [full(a) for a in n["authors"]]
        out.append(m)
    return out
