"""Main-file monitor: which file of a folder or archive is converted."""
import os
import shutil
import tempfile

from .. import flow, gen, project, target
from ..core import CURRENT

PROPERTY = "P32"
LEVEL = "exploration"
RULE = "distinct folder layouts (paths and kinds of files)"
ASSUMPTIONS = ["file names end in .tex in lower case"]
MIN_EVENTS = {"evaluations": 1500, "none": 60, "several": 150, "commented": 150}

MAIN = ["\\documentclass{article}\n\\begin{document}\n@W\n\\end{document}\n", "\\begin{document}\n@W\n\\end{document}\n", "\\documentclass[11pt]{amsart}\n@W\n",
        "% comment\n%\n\n \\documentclass {book}\n@W", "@W % \\documentclass{no}\n\\begin{document} x \\end{document}", "\\def\\x{100\\%}\\documentclass{x} @W",
        "@W 50\\% \\begin{document} x \\end{document}", "\ufeff\\documentclass{article}\n@W", "\\\\\\\\\\begin{document}@W", "@W\n" * 300 + "\\begin{document}"]
COMMENTED = ["% \\documentclass{article}\n@W\n", "@W %\\begin{document}\n", "  %%% \\documentclass{a}\n% \\begin{document}\n@W\n", "@W \\\\% \\documentclass{b}",
             "\\begin{comment}\n\\documentclass{article}\n\\end{comment}\n@W"]
PLAIN = ["@W", "", "\\section{@W}", "\\newcommand{\\x}{@W}", "documentclass @W", "\\end{document} @W", "\\begin{documents} @W"]
# names sorted by this order inside one folder
NAMES = ["main", "paper", "a", "b", "Z", "0", "_x", "ms", "a b", "main.v2", "é", "supp", "z1", "aa", "A", ".hid"]
OTHER = ["main.txt", "main.tex.bak", "x.sty", "x.bib", "texfile", "main.tex~", "doc.latex", "x.TXT"]


class Shuffled:
    """os.scandir with its entries in random order"""

    def __init__(self, it, rng):
        with it:
            self.e = list(it)
        rng.shuffle(self.e)
        self.i = iter(self.e)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.i)

    def close(self):
        pass


class ShuffledListing:
    """directory listings come in a random order, as file systems may give them"""

    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        self.old = os.scandir, os.listdir
        scan, ls = self.old

        def scandir(path="."):
            return scan(path) if isinstance(path, int) else Shuffled(scan(path), self.rng)

        def listdir(path="."):
            out = ls(path)
            self.rng.shuffle(out)
            return out
        os.scandir, os.listdir = scandir, listdir

    def __exit__(self, *a):
        os.scandir, os.listdir = self.old


def order(paths):
    """folders from the top, files of a folder before its subfolders, by name"""
    def key(p):
        parts = p.split("/")
        return [(1, d) for d in parts[:-1]] + [(0, parts[-1])]
    return sorted(paths, key=key)


def case(i, rng, obs, tier):
    base = os.path.join(flow.scratch(), "p32")
    for k in range(8):
        shutil.rmtree(base, ignore_errors=True)
        tmp = os.path.join(base, "tmp")
        os.makedirs(tmp)
        tempfile.tempdir = tmp
        g = gen.Gen(rng)
        files, mains, comm = {}, {}, 0
        dirs = [""] + [rng.choice(["sub/", "a/", "Z/", "0/", "sub/deep/", "tex/", "c.tex/", "é/"]) for _ in range(rng.randrange(0, 4))]
        few = rng.random() < 0.5
        for _ in range(rng.randrange(1, 12)):
            p = rng.choice(dirs) + rng.choice(NAMES) + ".tex"
            if p in files:
                continue
            w = g.word()
            z = rng.random()
            if z < (0.12 if few else 0.35):
                files[p] = rng.choice(MAIN).replace("@W", w)
                mains[p] = w
            elif z < 0.6:
                files[p] = rng.choice(COMMENTED).replace("@W", w)
                comm += 1
            else:
                files[p] = rng.choice(PLAIN).replace("@W", w)
        for _ in range(rng.randrange(0, 3)):
            files[rng.choice(dirs) + rng.choice(OTHER)] = "\\documentclass{article}\\begin{document}x\\end{document}"
        want = order(mains)[0] if mains else None
        CURRENT["input"] = repr(files)
        proj = os.path.join(base, "proj")
        os.makedirs(proj)
        names = list(files)
        rng.shuffle(names)
        project.write(proj, {n: files[n] for n in names})
        arch = os.path.join(base, "x.zip" if rng.random() < 0.5 else "x.tar.gz")
        (project.make_zip if arch.endswith("zip") else project.make_tar)(arch, files, rng)
        obs.count("none" if want is None else "several" if len(mains) > 1 else "one")
        obs.count("commented", bool(comm))
        obs.seen("layout", sorted((p, p in mains) for p in files))
        obs.sample({"files": files, "want": want})
        r = target.TexReader()
        for route in ("folder", "archive", "find", "folder"):
          obs.ev()
          with ShuffledListing(rng):
            try:
                if route == "find":
                    rel, folder = target.TexFileExtractor.find_main_tex_file(proj)
                    got = rel
                    if os.path.realpath(folder) != os.path.realpath(os.path.dirname(os.path.join(proj, rel))):
                        obs.fail("folder", f"{rel} said to be in {folder}\n{files}")
                else:
                    res = r.process(proj if route == "folder" else arch)
                    root = proj if route == "folder" else res.temp_dir
                    got = os.path.relpath(res.main_tex_path, root)
                    res.cleanup()
            except Exception as e:
                got = None
                text = str(e) + str(e.__cause__ or "")
                ok = isinstance(e, FileNotFoundError) if route != "archive" else isinstance(e, (FileNotFoundError, RuntimeError, target.TexProcessingError))
                if want is None and not ok:
                    obs.fail("error", f"{route}: no main file, but {type(e).__name__}: {text}\n{files}")
                if want is not None:
                    obs.fail("lost", f"{route}: {want} expected, {type(e).__name__}: {text}\n{files}", {"files": files})
                    continue
          if got != want:
              obs.fail("main", f"{route}: {want} expected, {got} converted\n{files}", {"files": files})


def plan(tier):
    return {"cases": 200 if tier == "quick" else 5000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 60}
