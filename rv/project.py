"""Documents spread over files: a generator that moves parts of a document into
files of their own, and writers for folders and archives."""
import gzip
import io
import os
import tarfile
import zipfile

from . import gen


class ProjectGen(gen.Gen):
    """Gen whose blocks may live in files; `files` maps relative paths to text
    (without the main file)."""

    def __init__(self, rng, inline=None, block=None, **opt):
        super().__init__(rng, inline, block, **opt)
        self.files = {}
        self.split = opt.get("split", 0.35)
        self.maxdepth = opt.get("filedepth", 5)
        self.fdepth = 0
        self.dirs = [""] + rng.sample(["sections/", "parts/", "a/b/c/", "Ch 1/", "tex.d/", "../" * 0 + "x-y_z/"], rng.randrange(0, 4))
        self.inputs = 0

    def to_file(self, text):
        """store text, -> command that includes it"""
        r = self.rng
        while True:
            base = r.choice(self.dirs) + self.word() + r.choice(["", "", "", "_1", "-b", ".v2", " c", "1"])
            ext = r.choice([".tex"] * 6 + [".txt", ".tikz.tex", ".inc"])
            if base + ext not in self.files:
                break
        self.files[base + ext] = r.choice(["", "", "\n", "  "]) + text + r.choice(["", "", "\n", "\n\n", "%"])
        name = base + ext if ext != ".tex" or r.random() < 0.4 else base
        if "/" in name and r.random() < 0.2:
            name = "./" + name
        if r.random() < 0.05:
            # a folder of the same name does not matter
            self.files.setdefault((name + "/x.png") if not name.endswith(ext) else "zz/x.png", "")
        self.inputs += 1
        return r.choice(["\\input{%s}", "\\input{%s}", "\\include{%s}", "\\input {%s}", "\\input{ %s }"]) % name

    def blocks(self, n, depth=None, ban=(), top=False):
        r = self.rng
        if self.fdepth < self.maxdepth and r.random() < self.split:
            self.fdepth += 1
            a = r.randrange(0, n) if n > 1 else 0
            b = r.randrange(a + 1, n + 1)
            out, nodes = [], []
            for k, infile in ((a, False), (b - a, True), (n - b, False)):
                if k:
                    t, nn = self.blocks(k, depth, ban, top)
                    nodes += nn
                    out.append(self.to_file(t) if infile else t)
            self.fdepth -= 1
            return ("\n\n" if self.opt["newlines"] else "\n").join(out), nodes
        return super().blocks(n, depth, ban, top)

    def block(self, k, depth, ban=()):
        r = self.rng
        if k == "para" and r.random() < self.split / 3:
            t, nodes = [], []
            ib = tuple(b for b in ban if b in gen.NOINL)
            for j in range(3):
                x, a = self.inline(r.randrange(1, 5), 2, (), ib + ("lead",))
                t.append(self.to_file(x) if j == 1 else x)
                nodes += a
            return r.choice([" ", "\n"]).join(t), nodes
        return super().block(k, depth, ban)


def inlined(text, files):
    """the text with every inclusion replaced by the file"""
    import re

    def sub(m):
        name = m.group(1).strip()
        if name.startswith("./"):
            name = name[2:]
        for n in (name, name + ".tex"):
            if n in files:
                return inlined(files[n] if not files[n].endswith("%") else files[n][:-1], files)
        raise KeyError(name)
    return re.sub(r"\\(?:input|include) ?\{([^{}]*)\}", sub, text)


def write(root, files):
    for rel, data in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8"))


def data(d):
    return d if isinstance(d, bytes) else d.encode("utf-8")


def make_zip(path, files, rng, prefix="", extra=()):
    with zipfile.ZipFile(path, "w", rng.choice([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED])) as z:
        names = list(files)
        rng.shuffle(names)
        if rng.random() < 0.4:
            for d in sorted({os.path.dirname(prefix + n) for n in names} - {""}):
                z.writestr(zipfile.ZipInfo(d + "/"), b"")
        for n in names:
            z.writestr(prefix + n, data(files[n]))
        for n, d in extra:
            z.writestr(n, data(d))


def make_tar(path, files, rng, prefix="", extra=()):
    with tarfile.open(path, "w:gz", format=rng.choice([tarfile.PAX_FORMAT, tarfile.GNU_FORMAT])) as t:
        names = list(files)
        rng.shuffle(names)
        if rng.random() < 0.4:
            for d in sorted({os.path.dirname(prefix + n) for n in names} - {""}):
                ti = tarfile.TarInfo(d)
                ti.type, ti.mode = tarfile.DIRTYPE, 0o755
                t.addfile(ti)
        for n in names:
            ti = tarfile.TarInfo(prefix + n)
            ti.size, ti.mode = len(data(files[n])), rng.choice([0o644, 0o600, 0o755])
            t.addfile(ti, io.BytesIO(data(files[n])))
        for ti, d in extra:
            t.addfile(ti, io.BytesIO(d) if d is not None else None)


def make_gz(path, text):
    with gzip.open(path, "wb") as f:
        f.write(data(text))
