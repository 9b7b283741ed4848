"""Monitor for file encodings: what a document says does not depend on how its
files are written down (encoding, byte-order mark, line ends, stray bytes)."""
import os
import shutil

from .. import flow, gen, norm, project, target
from ..core import CURRENT

PROPERTY = "P24"
LEVEL = "exploration"
RULE = "distinct pairs of document shape and way of writing"
ASSUMPTIONS = ["UTF-8 with or without byte-order mark, any mixture of line ends", "Western European names in files of Latin-1 or Windows-1252",
               "stray bytes that are no UTF-8 in files that otherwise are"]
MIN_EVENTS = {"evaluations": 800, "files": 1500, "non-ASCII words": 4000}

ANY = "été naïve über Straße mañana 中文 日本語 русский слово λόγος עברית عربي ไทย 한국어 ŁódŹ ığdır ﬁx 😀x 𝔸b “quoted” —dash… ½ µm x² café Ångström".split()
WEST = "été naïve über Straße mañana français Zürich élève où château coöperate Müller Gödel Hölder Poincaré Erdös Schrödinger Ångström señor façade Möbius Lévy Fréchet Bézier Kähler Böhm Çelik Núñez".split()
WEST_CP = WEST + "“quoted” ‘single’ —dash… –range • €5 Œuvre Šimek žena ™x".split()
INL = {"macro": 18, "unknown": 0, "accent": 4}
GENS = [(dict(INL), {}, {}, (2, 6)), (dict(INL), {"table": 8, "list": 8, "section": 12, "figure": 6}, {"depth": 3}, (2, 5)),
        (dict(INL, verb=0), {"verbatim": 10, "thm": 8}, {"newlines": True}, (1, 5))]


def hook(words, count):
    def use(g, depth, styles):
        w = g.rng.choice(words)
        if g.rng.random() < 0.5:
            w = g.word() + w if w[0].isalpha() else w
        count[0] += 1
        return w, [("acc", w, styles)]
    return use


def newlines(text, kind, rng):
    if kind == "crlf":
        return text.replace("\n", "\r\n")
    if kind == "cr":
        return text.replace("\n", "\r")
    if kind == "mixed":
        return "".join(rng.choice(["\n", "\r\n", "\r\n"]) if c == "\n" else c for c in text)
    return text


def whole(rng, obs, root):
    """a project whose files are written in different ways"""
    legacy = rng.choice([None, None, "latin-1", "cp1252", "stray"])
    words = {None: ANY, "latin-1": WEST, "cp1252": WEST_CP, "stray": ANY}[legacy]
    inline, block, opts, nb = rng.choice(GENS)
    g = project.ProjectGen(rng, inline, block, split=rng.choice([0, 0.3, 0.5]), **opts)
    count = [0]
    g.macros.append(hook(words, count))
    tex, nodes = g.blocks(rng.randrange(nb[0], nb[1] + 1), top=True)
    # files of a bibliography and of a package
    extra, items = {}, []
    if rng.random() < 0.4:
        for k in range(rng.randrange(1, 4)):
            a, b = [("acc", x, ()) for x in (rng.choice(words), g.word())]
            items.append((g.word().lower(), [a, b]))
        if rng.random() < 0.5:
            extra["refs.bbl"] = "\\begin{thebibliography}{9}\n" + "".join("\\bibitem{%s} %s\n%s\n\n" % (k, c[0][1], c[1][1]) for k, c in items) + "\\end{thebibliography}\n"
        else:
            extra["refs.bib"] = "".join("@article{%s,\n author = {%s},\n title = {%s}\n}\n\n" % (k, c[0][1], c[1][1]) for k, c in items)
        tex += "\n\n\\bibliography{refs}"
    pack = ""
    if rng.random() < 0.3:
        title = g.word()
        extra["local.sty"] = "%% %s\n\\newtheorem{zzenv}{%s}\n" % (rng.choice(words), title)
        pack = "\\usepackage{local}\n"
        w = g.word()
        tex = "\\begin{zzenv}\n%s\n\\end{zzenv}\n\n" % w + tex
        nodes = [{"t": "environment", "name": title, "c": [("w", w, ())]}] + nodes
    head = rng.choice(["\\documentclass{article}\n", "\\documentclass{article}\n\\usepackage[utf8]{inputenc}\n"])
    files = dict(g.files, **extra)
    files["main.tex"] = head + pack + "\\begin{document}\n" + tex + "\n\\end{document}\n"
    how, out = {}, {}
    for n, t in files.items():
        nl = rng.choice(["lf", "lf", "crlf", "cr", "mixed"])
        enc = legacy if legacy in ("latin-1", "cp1252") else rng.choice(["utf-8", "utf-8", "utf-8-sig"])
        if legacy == "stray" and not t.isascii():
            # in a comment of its own line, so that the rest says the same
            stray = bytes(rng.choice([0xff, 0xfe, 0xc0, 0xe9, 0xf6, 0x80, 0x95]) for _ in range(rng.randrange(1, 3)))
            t = t if t.endswith("\n") else t + "\n"
            data = newlines(t, nl, rng).encode("utf-8")
            if sum(c > "\x7f" for c in t) > 12:
                data += b"% " + stray + b" \n"
        else:
            data = newlines(t, nl, rng).encode(enc)
        out[n] = data
        how[n] = (enc, nl)
    shutil.rmtree(root, ignore_errors=True)
    project.write(root, out)
    CURRENT["input"] = repr(out)
    res = target.convert_file(os.path.join(root, "main.tex"))
    got = flow.normal(res["tokens"])
    exp = gen.expected(nodes)
    if items:
        fmt = "bibitem" if "refs.bbl" in extra else "bibtex"
        exp = exp + [{"t": "bibliography", "c": [], "items": [
            {"key": k, "format": fmt, "label": None, "fields": {} if fmt == "bibitem" else {"author": c[0][1], "title": c[1][1]}, "c": c if fmt == "bibitem" else []} for k, c in items]}]
    exp = gen.canon([{"t": "document", "c": exp}])
    if "refs.bib" in extra:
        # the printed form of a .bib entry is judged elsewhere
        for _, n in norm.walk(got):
            if isinstance(n, dict) and n["t"] == "bibliography":
                for b in n["items"]:
                    b["c"] = []
    exp, got = flow.full(exp), flow.full(got)
    obs.ev()
    obs.count("files", len(files))
    obs.count("non-ASCII words", count[0])
    for e, nl in how.values():
        obs.count("written:" + e + "/" + nl)
    obs.seen("shape", (flow.shape(gen.expected(nodes)), tuple(sorted(set(how.values())))))
    obs.sample({"how": {k: list(v) for k, v in how.items()}, "main": files["main.tex"][:300]})
    d = norm.first_diff(exp, got)
    if d:
        shown = "\n".join(f"--- {n} {how[n]} ---\n{t!r}" for n, t in out.items())
        obs.fail("encoding", f"{d}\n{shown}", {"files": {k: repr(v) for k, v in out.items()}})


def noise(rng, obs, root):
    """any bytes at all between words: the words stay"""
    g = gen.Gen(rng)
    ws, parts = [], []
    for k in range(rng.randrange(5, 60)):
        w = g.word()
        ws.append(w)
        parts.append(w.encode())
        if rng.random() < 0.15:
            n = rng.choice([1, 1, 2, 3, 8])
            parts.append(bytes(rng.choice([rng.randrange(128, 256), rng.choice([1, 7, 11, 12, 26, 127, 255, 254])]) for _ in range(n)))
    data = rng.choice([b"", b"\\documentclass{article}\n"]) + b"\\begin{document}\n" + rng.choice([b" ", b"\n", b"\r\n"]).join(parts) + b"\n\\end{document}\n"
    shutil.rmtree(root, ignore_errors=True)
    project.write(root, {"main.tex": data})
    CURRENT["input"] = repr(data)
    res = target.convert_file(os.path.join(root, "main.tex"))
    got = " ".join(str(x) for x in flow.plain_words(flow.normal(res["tokens"])))
    obs.ev()
    obs.count("noise files")
    at = 0
    for w in ws:
        k = got.find(w, at)
        if k < 0:
            obs.fail("noise", f"the word {w} is lost\n{data!r}\nwords {got}", {"data": repr(data)})
            return
        at = k + len(w)


def case(i, rng, obs, tier):
    root = os.path.join(flow.scratch(), "p24")
    for k in range(2):
        whole(rng, obs, root)
    noise(rng, obs, root)


def worker_done(obs, tier):
    flow.drop_scratch()


def plan(tier):
    return {"cases": 2400 if tier == "quick" else 12000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 30}
