"""Bibliography monitor: entries written in every supported form come out once,
in order, with key, label, text or fields."""
import json
import os
import re
import shutil

from .. import flow, gen, norm, project, target
from ..core import CURRENT, Unreadable

PROPERTY = "P22"
LEVEL = "exploration"
RULE = "distinct (form, entry shapes) combinations"
ASSUMPTIONS = ["BibTeX values balance their braces and use no string concatenation", "labels of items contain no brackets outside braces"]
MIN_EVENTS = {"evaluations": 600, "entries": 3000, "fields": 5000, "form:items": 100, "form:bib": 100, "form:biblatex": 50, "form:bibdiv": 50}

TYPES = ["article", "inproceedings", "book", "misc", "techreport", "phdthesis", "Article", "ARTICLE", "online", "incollection", "InProceedings"]
FIELDS = ["author", "title", "journal", "year", "volume", "pages", "url", "doi", "note", "booktitle", "publisher", "editor", "abstract", "month", "eprint",
          "archivePrefix", "Title", "AUTHOR", "date-added", "bdsk-url-1", "number", "series", "keywords"]


def key(g):
    r = g.rng
    used = g.__dict__.setdefault("used_keys", [])
    if used and r.random() < 0.08:
        # a key that differs from another one in case only is another key
        k = r.choice([str.upper, str.capitalize, str.swapcase])(r.choice(used))
        if k not in used:
            used.append(k)
            return k
    k = new_key(g)
    used.append(k)
    return k


def new_key(g):
    r = g.rng
    return r.choice(["", "DBLP:conf/x/", "@"[:0], "a_", "Smith-"]) + g.word().lower() + r.choice(["", "2001", ":1", "+x", "_b", "."]).rstrip(".")


def value(g, bibdiv=False):
    r = g.rng
    out = []
    for _ in range(r.randrange(1, 7)):
        w = g.word()
        out.append(r.choice([w, w, w, w + ",", "{%s}" % w, "{\\'e}" + w, w + " and", "\\textbf{%s}" % w, "$x_{%s}$" % w[0], "%s--%d" % (w, r.randrange(99)),
                             "\\url{http://%s.org/a_b}" % w.lower(), "%s = %d" % (w, r.randrange(9)), "{{%s} {%s}}" % (w, w), "50\\%", "\\& " + w, "#1", "@" + w, w + "@x.org",
                             '{\\"o}' + w, "(" + w + ")", w + ";", "title = " + w, "\\" + w, "é" + w, "a~" + w, w + "'s", "--- " + w]))
    return out


def one_space(s):
    return " ".join(s.split())


def bib(g, n):
    """-> (text of a .bib file, [(type, key, [(field, value)])])"""
    r = g.rng
    tex, exp = [], []
    for _ in range(n):
        ty, k = r.choice(TYPES), key(g)
        fields, lines = [], []
        for f in r.sample(FIELDS, r.randrange(1, 8)):
            if f.lower() in [x for x, _ in fields]:
                continue
            z = r.random()
            if f in ("year", "month", "number") and z < 0.6:
                v = str(r.randrange(1900, 2030)) if f != "month" else r.choice(["jan", "dec"])
                lines.append((f, v))
            elif f in ("url", "doi") and z < 0.5:
                v = "http://" + g.word() + r.choice(["/a%20b", "/x_y", "#z", "/~u", "?a=b&c=d", "/10.1000/(x)", "/@me"])
                lines.append((f, "{%s}" % v))
            else:
                parts = value(g)
                glue = r.choice([" ", " ", "\n    ", "  "])
                v = glue.join(parts)
                if z < 0.3 and '"' not in re.sub(r"\{[^{}]*\}", "", v):
                    lines.append((f, '"%s"' % v))
                else:
                    lines.append((f, "{%s}" % v))
            fields.append((f.lower(), one_space(v)))
        sep = r.choice([",\n  ", ", ", ",\n\n", " ,\n"])
        eq = r.choice(["=", " = ", " =", "= ", "\t= "])
        body = sep.join(f + eq + v for f, v in lines)
        tex.append("@%s%s{%s,%s%s%s}" % (ty, r.choice(["", " "]), k, r.choice(["\n  ", " ", ""]), body, r.choice(["\n", ",\n", ""])))
        exp.append((ty.lower(), k, fields))
        if r.random() < 0.2:
            tex.append(r.choice(["% a comment", "%% @article{no, title={x}}", "@comment{zzno %s}" % g.word(), "Text between entries", "@string{zz = \"%s\"}" % g.word(),
                                 "@preamble{\"\\newcommand{\\noop}[1]{}\"}", "@comment{jabref-meta: a, b = {c}}", ""]))
    return r.choice(["\n", "\n\n"]).join(tex), exp


def biblatex(g, n):
    r = g.rng
    tex, exp = [], []
    for _ in range(n):
        ty, k = r.choice(["article", "misc", "book", "inproceedings", "online"]), key(g).replace("@", "")
        t = ["  \\entry{%s}{%s}{}" % (k, ty)]
        fields = []
        na = r.randrange(0, 4)
        if na:
            names = []
            t.append("    \\name{author}{%d}{}{%%" % na)
            for _ in range(na):
                fam = g.word().capitalize()
                fam = r.choice([fam, fam, fam, "{van} " + fam, fam + "-" + g.word().capitalize(), "{%s}" % fam, "{\\'E}" + fam, "{%s \\& {%s}}" % (fam, fam), "\\'{e}" + fam])
                parts = ["family={%s}" % fam, "familyi={%s\\bibinitperiod}" % fam.strip("{}\\'")[0].upper()]
                name = fam
                z = r.random()
                if z < 0.75:
                    ini, giv = r.choice([("", ""), ("", ""), ("", ""), ("{\\'E}", None), ("\\'E", None), ("{\\O}", None), ("\\v{S}", None), ("{\\v{S}}", None), ("\u00c9", None), ("\\\"{O}", None)])
                    giv = ini + g.word() if giv is None else g.word().capitalize()
                    ini = ini or giv[0]
                    giv += r.choice(["", "", " " + g.word().capitalize(), "-" + g.word().capitalize()])
                    parts += ["given={%s}" % giv, "giveni={%s\\bibinitperiod}" % ini]
                if z > 0.65:
                    pre = r.choice(["van", "de la", "von der"])
                    parts += ["prefix={%s}" % pre, "prefixi={%s\\bibinitperiod}" % pre[0]]
                    name = pre + " " + name
                if z < 0.75:
                    name += ", " + ini + "."
                if r.random() < 0.2:
                    r.shuffle(parts)
                t.append("      {{%shash=%s}{%%\n         %s}}%%" % (r.choice(["", "", "uniquename=0,", "un=0,uniquepart=base,"]), r.choice(["ML", "AB1", "0123456789abcdef"]), ",\n         ".join(parts) + r.choice([",\n      ", ""])))
                names.append(name)
            t.append("    }")
            fields.append(("author", " and ".join(names)))
        if r.random() < 0.3:
            t.append("    \\list{publisher}{1}{%%\n      {%s}%%\n    }" % g.word())
        t.append("    \\strng{namehash}{%s}\n    \\strng{fullhash}{%s}" % (g.word(), g.word()))
        t.append("    \\field{labelnamesource}{author}\n    \\field{labeltitlesource}{title}")
        for f in r.sample(["title", "year", "journaltitle", "volume", "note", "eprinttype", "eprintclass", "booktitle", "howpublished", "day", "pages"], r.randrange(1, 7)):
            v = r.choice([" ".join(value(g)), " ".join(g.word() for _ in range(r.randrange(1, 5)))])
            if f == "pages":
                a, b = r.randrange(100), r.randrange(100, 200)
                t.append("    \\field{pages}{%d\\bibrangedash %d}" % (a, b))
                v = "%d--%d" % (a, b)
            else:
                t.append("    \\field{%s}{%s}" % (f, v))
            fields.append((f.replace("journaltitle", "journal"), v))
        if r.random() < 0.4:
            v = "%d.%d" % (r.randrange(1000, 3000), r.randrange(10000))
            t.append("    \\verb{eprint}\n    \\verb %s\n    \\endverb" % v)
            fields.append(("eprint", v))
        t.append("  \\endentry")
        tex.append("\n".join(t))
        exp.append((ty, k, sorted(fields)))
    return "\\begingroup\n\\makeatletter\n\\datalist[entry]{nty/global//global/global}\n" + "\n".join(tex) + "\n\\enddatalist\n\\endgroup\n", exp


def bibdiv(g, n):
    r = g.rng
    tex, exp = [], []
    for _ in range(n):
        ty, k = r.choice(["article", "book", "report", "thesis"]), key(g)
        fields, lines = {}, []
        for f in ["author"] * r.randrange(1, 4) + r.sample(["title", "journal", "volume", "date", "pages", "eprint", "publisher", "note"], r.randrange(1, 6)):
            v = " ".join(r.choice([g.word(), g.word() + ",", "$x^2$", "\\'e" + g.word(), g.word() + " = 1", "2020-01"]) for _ in range(r.randrange(1, 5)))
            v = v.strip(",")
            lines.append("%s={%s}" % (f, v))
            fields[f] = fields[f] + " and " + v if f in fields else v
        tex.append("\\bib{%s}{%s}{\n  %s%s\n}" % (k, ty, ",\n  ".join(lines), r.choice([",", ""])))
        exp.append((ty, k, sorted(fields.items())))
    return "\\begin{bibdiv}\n\\begin{biblist}\n\n" + "\n\n".join(tex) + "\n\n\\end{biblist}\n\\end{bibdiv}\n", exp


def items(g, n):
    r = g.rng
    tex, exp = [], []
    author = None
    for _ in range(n):
        k = key(g)
        w = g.word()
        lab = r.choice([None, None, w, "{%s(2001)}" % w, w + " 99", "{%s et~al.(2001)%s, %s}" % (w, w, w), "$^%d$" % r.randrange(9)])
        parts, atoms = [], []
        for _ in range(r.randrange(1, 4)):
            t, a = g.inline(r.randrange(1, 6), 2, (), ("fn", "verb", "ref", "hyperref", "unknown"))
            parts.append(t)
            atoms += a
        # entries by the authors of the entry before
        z = r.random()
        if author and z < 0.25:
            parts.insert(0, "\\bysame,")
            atoms = author[1] + g.W(",", ()) + atoms
        elif z < 0.5:
            author = g.inline(r.randrange(1, 4), 2, (), ("fn", "verb", "ref", "hyperref", "unknown", "cite", "legacy", "math"))
            if "," in author[0]:
                author = None
            else:
                parts.insert(0, author[0] + ",")
                atoms = author[1] + g.W(",", ()) + atoms
        else:
            author = None
        text = r.choice([" ", " \\newblock ", "\n\\newblock ", "\n  "]).join(parts)
        tex.append("\\bibitem%s%s{%s}%s%s" % (r.choice(["", "", " "]) if lab is None else "", "[%s]" % lab if lab is not None else "", k, r.choice([" ", "\n", "\n  "]), text))
        exp.append(("bibitem", k, lab, atoms))
        if r.random() < 0.1:
            tex[-1] += "\n% commented \\bibitem{no} nothing"
    head = r.choice(["\\begin{thebibliography}{99}", "\\begin{thebibliography}{%d}" % n, "\\begin{thebibliography}{}", "\\begin{thebibliography} {WWW}"])
    return head + "\n" + "\n\n".join(tex) + "\n\\end{thebibliography}\n", exp


def read(tokens):
    """bibliographies of the JSON document, in order"""
    out = []

    def rec(x):
        if isinstance(x, dict):
            if x.get("type") == "bibliography":
                out.append(x.get("content") or [])
                return
            for v in x.values():
                rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)
    rec(tokens)
    return out


def without(x):
    """the JSON without bibliographies"""
    if isinstance(x, dict):
        return {k: without(v) for k, v in x.items()}
    if isinstance(x, list):
        return [without(v) for v in x if not (isinstance(v, dict) and v.get("type") == "bibliography")]
    return x


def simple(item, sort):
    if item.get("format") == "bibitem":
        return ("bibitem", item["cite_key"], item.get("label"), flow.full(gen.canon(norm.norm_list(item["content"] if isinstance(item["content"], list) else [item["content"]]))))
    c = item["content"]
    m = re.match(r"@(\w+)\{([^,]*),", c)
    fields = list(item["fields"].items())
    for f, v in fields:
        if f not in c or v not in c:
            raise Unreadable(f"field {f}={v} missing in content {c!r}")
    if not m or m.group(2) != item["cite_key"]:
        raise Unreadable(f"entry text {c!r} of {item['cite_key']!r}")
    return (m.group(1), item["cite_key"], sorted(fields) if sort else fields)


def case(i, rng, obs, tier):
    root = os.path.join(flow.scratch(), "p22")
    for k in range(4):
        one((i * 4 + k) % 6, rng, obs, root)


def one(kind, rng, obs, root):
    g = gen.Gen(rng, {"cite": 6}, {})
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    n = rng.choice([1, 2, 3, 5, 8, 40])
    before, bn = g.blocks(rng.randrange(0, 3) or 1, top=True)
    after, an = g.blocks(1, top=True) if rng.random() < 0.4 else ("", [])
    files, sort = {}, False
    mode = "file"
    if kind in (0, 1):
        form = "items"
        body, exp = items(g, n)
        if kind == 1:
            # the .bbl of the name given, or main.bbl, or the only one there is
            files[rng.choice(["refs.bbl", "refs.bbl", "refs.bbl", "main.bbl", "paper.v1.bbl"])] = body
            if rng.random() < 0.3:
                files["refs.bib" if "refs.bbl" in files else "x.bib"] = "@misc{zzno, title={a bbl file comes first}}"
            body = "\\bibliographystyle{plain}\n\\bibliography{refs}"
        else:
            mode = flow.MODES[rng.randrange(3)]
        exp = [(a, b, c, flow.full(gen.canon(d))) for a, b, c, d in exp]
    elif kind in (2, 3):
        form = "bib"
        names = ["refs"] + rng.sample(["more", "bib/third", "a.b"], rng.randrange(0, 3))
        exp = []
        used = set()
        for nm in names:
            t, e = bib(g, max(1, n // len(names)))
            if exp and rng.random() < 0.5:  # an entry again in a later file
                t += "\n@misc{%s,\n title = {zzagain}\n}\n" % exp[rng.randrange(len(exp))][1]
            files[nm + ".bib"] = t
            for x in e:
                if x[1] not in used:
                    used.add(x[1])
                    exp.append(x)
        if rng.random() < 0.3:
            body = "\n".join("\\addbibresource{%s.bib}" % nm for nm in names[:1]) + "\n\\printbibliography"
            body_names = names[:1]
            if len(names) > 1:
                body = None
        else:
            body = None
        if body is None:
            body = "\\bibliography{%s}" % rng.choice([",", ", "]).join(nm + rng.choice(["", "", ".bib"]) for nm in names)
        if rng.random() < 0.2:
            files["other.bbl" if False else "unrelated.txt"] = "@misc{no, title={x}}"
    elif kind == 4:
        form, sort = "biblatex", True
        t, exp = biblatex(g, n)
        files["refs.bbl"] = t
        body = rng.choice(["\\bibliography{refs}", "\\addbibresource{refs.bib}"][:1])
        if rng.random() < 0.5:
            files["refs.bib"] = "@misc{zzno, title={a bbl file comes first}}"
    else:
        form, sort = "bibdiv", True
        t, exp = bibdiv(g, n)
        files["refs.bbl"] = t
        body = "\\bibliography{refs}"
    tex = before + "\n\n" + body + "\n\n" + after
    if rng.random() < 0.6 and mode == "file":
        tex = "\\documentclass{article}\n\\begin{document}\n" + tex + "\n\\end{document}\n"
    CURRENT["input"] = repr((tex, files))
    if mode == "file":
        files["main.tex"] = tex
        project.write(root, files)
        out = target.convert_file(os.path.join(root, "main.tex"))["tokens"]
    else:
        out = target.convert(tex, mode == "pre")
    bibs = read(out)
    try:
        got = [[simple(x, sort) for x in b] for b in bibs]
    except (KeyError, TypeError, AttributeError) as e:
        raise Unreadable(f"{type(e).__name__} {e}: {str(bibs)[:2000]}")
    obs.ev()
    obs.count("form:" + form)
    obs.count("mode:" + mode)
    obs.count("entries", len(exp))
    obs.count("fields", sum(len(e[2]) for e in exp if form != "items"))
    obs.seen("form", (form, [tuple(f for f, _ in e[2]) if form != "items" else flow.shape(e[3]) for e in exp]))
    obs.sample({"form": form, "entry": str(exp[0])[:300]})
    d = norm.first_diff([exp], got)
    if d:
        obs.fail(form, f"[{mode}] {form}: {d}\n{tex}\n{files}", {"tex": tex, "files": files})
        return
    words = flow.plain_words(bn + an)
    seen = [w for w in flow.plain_words(flow.normal(without(out)))]
    w1 = flow.plain_words(gen.canon(gen.organize(bn)) + gen.canon(gen.organize(an)))
    if [x for x in seen] != [x for x in w1] and not any(n_["t"] == "bibliography" for n_ in bn if isinstance(n_, dict)):
        obs.fail("around", f"[{mode}] text around a bibliography: {norm.first_diff(w1, seen)}\n{tex}\n{files}", {"tex": tex, "files": files})


def plan(tier):
    return {"cases": 800 if tier == "quick" else 12000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 60}
