"""Resource monitor: temporary directories live exactly as long as documented,
also when extraction or conversion fails at any point."""
import builtins
import gzip
import os
import shutil
import tarfile
import tempfile
import zipfile

from .. import flow, fsmon, gen, project, target
from ..core import CURRENT

PROPERTY = "P21"
LEVEL = "exploration"
RULE = "distinct (route, kind of input, fault point, outcome) combinations"
ASSUMPTIONS = ["the file system lets directories be removed", "faults are raised by calls made during extraction and conversion"]
MIN_EVENTS = {"evaluations": 1500, "faults fired": 100, "temporary directories": 800, "damaged archives": 250}


class Fault(Exception):
    pass


class Dirs:
    """records temporary directories and files that the code creates"""

    def __init__(self, root):
        self.root = root

    def left(self):
        return sorted(os.listdir(self.root))


def faulty(points, rng):
    """patch one call so that its nth call raises -> (name, undo, fired)"""
    name, obj, attr = rng.choice(points)
    exc = rng.choice([OSError(28, "No space left on device"), RuntimeError("boom"), MemoryError("boom"), KeyboardInterrupt(), ValueError("boom"),
                      UnicodeDecodeError("utf-8", b"x", 0, 1, "boom"), RecursionError("boom"), SystemExit(3), FileNotFoundError(2, "gone"), EOFError("boom")])
    n = rng.choice([1, 1, 1, 2, 3])
    raw = obj.__dict__[attr] if isinstance(obj, type) else getattr(obj, attr)
    fn = raw.__func__ if isinstance(raw, (classmethod, staticmethod)) else raw
    after = rng.random() < 0.5
    fired = []
    calls = [0]

    def wrap(*a, **k):
        calls[0] += 1
        if calls[0] == n and not after:
            fired.append(1)
            raise exc
        out = fn(*a, **k)
        if calls[0] == n:
            fired.append(1)
            raise exc
        return out
    setattr(obj, attr, type(raw)(wrap) if isinstance(raw, (classmethod, staticmethod)) else wrap)
    return f"{name}#{n}{'+' if after else ''}:{type(exc).__name__}", (lambda: setattr(obj, attr, raw)), fired, exc


def points():
    from latex2json import tex_file_extractor, tex_reader
    from latex2json.parser.tex_parser import LatexParser
    from latex2json.structure.builder import TokenBuilder
    from latex2json.utils import encoding, tex_utils
    out = [("parse", LatexParser, "parse"), ("build", TokenBuilder, "build"), ("process_file", tex_reader.TexReader, "process_file"),
           ("tar.extract", tarfile.TarFile, "extract"), ("zip.extract", zipfile.ZipFile, "extract"), ("copyfileobj", shutil, "copyfileobj"),
           ("is_main", tex_file_extractor.TexFileExtractor, "is_main_tex_file"), ("find_main", tex_file_extractor.TexFileExtractor, "find_main_tex_file"),
           ("os.walk", os, "walk"), ("tar.open", tarfile, "open"), ("zip.open", zipfile.ZipFile, "__init__"), ("zip.names", zipfile.ZipFile, "namelist"),
           ("tar.members", tarfile.TarFile, "getmembers"), ("gzip.open", gzip, "open")]
    return [p for p in out if hasattr(p[1], p[2]) and (not isinstance(p[1], type) or p[2] in p[1].__dict__)]


def case(i, rng, obs, tier):
    base = os.path.join(flow.scratch(), "p21")
    pts = points()
    for k in range(10):
        shutil.rmtree(base, ignore_errors=True)
        tmp = os.path.join(base, "tmp")
        os.makedirs(tmp)
        tempfile.tempdir = tmp
        g = gen.Gen(rng)
        w = g.word()
        files = {"main.tex": "\\documentclass{article}\n\\begin{document}\n%s \\input{sub/p}\n\\end{document}\n" % w, "sub/p.tex": g.word(), "sub/data.bin": os.urandom(10)}
        kind = rng.choice(["zip", "tar.gz", "tgz", "gz", "tex", "folder", "gz.tar.gz"])
        bad = rng.choice([None, None, None, "nomain", "truncated", "garbage", "empty", "flipped", "wrong"]) if kind not in ("tex", "folder") else rng.choice([None, None, "nomain"])
        if bad == "nomain":
            files["main.tex"] = "no main " + w
        main = "main.tex"
        if rng.random() < 0.4:
            # everything in a folder, the main file next to its parts
            d = rng.choice(["paper/", "src/tex/"])
            files = {d + n: c for n, c in files.items()}
            main = d + main
        src = os.path.join(base, "src")
        project.write(src, files)
        if kind == "folder":
            path = src
        elif kind == "tex":
            path = os.path.join(src, main)
        else:
            path = os.path.join(base, "in." + ("tar.gz" if kind == "gz.tar.gz" else kind))
            if kind == "zip":
                project.make_zip(path, files, rng)
            elif kind in ("gz", "gz.tar.gz"):
                project.make_gz(path, files[main])
            else:
                project.make_tar(path, files, rng)
            data = open(path, "rb").read()
            if bad == "truncated":
                data = data[:rng.randrange(len(data))]
            elif bad == "garbage":
                data = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 300)))
            elif bad == "empty":
                data = b""
            elif bad == "flipped":
                b = bytearray(data)
                for _ in range(rng.randrange(1, 4)):
                    b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                data = bytes(b)
            elif bad == "wrong":
                path = os.path.join(base, "in2." + rng.choice(["zip", "tar.gz", "tgz", "gz"]))
            with open(path, "wb") as f:
                f.write(data)
            obs.count("damaged archives", bad in ("truncated", "garbage", "empty", "flipped", "wrong"))
        archive = kind not in ("tex", "folder")
        fault = rng.random() < 0.5
        undo, fname, fired, exc = (lambda: None), None, [], None
        snap = fsmon.snapshot(base, skip=(tmp,))
        r = target.TexReader()
        route = rng.choice(["process", "process", "process+cleanup", "compressed", "compressed-keep", "extractor", "extractor-keep"]) if archive else rng.choice(["process", "process+cleanup", "direct"])
        CURRENT["input"] = what = f"{kind} {bad} {route}"
        made = []
        real_mkdtemp = tempfile.mkdtemp

        def mkdtemp(*a, **kw):
            d = real_mkdtemp(*a, **kw)
            made.append(d)
            return d
        tempfile.mkdtemp = mkdtemp
        if fault:
            no = {"zip": ("tar.", "gzip.", "copy"), "gz": ("tar.", "zip.", "find_main", "os.walk"), "gz.tar.gz": ("zip.", "find_main"), "tex": ("tar.", "zip.", "gzip", "copy", "is_main", "find", "os.walk"),
                  "folder": ("tar.", "zip.", "gzip", "copy")}.get(kind, ("zip.", "gzip.", "copy"))
            if route.startswith("extractor"):
                no += ("parse", "build", "process_file")
            fname, undo, fired, exc = faulty([p for p in pts if not p[0].startswith(no)], rng)
            what += " fault " + fname
        res = err = None
        try:
            try:
                if route == "process":
                    res = r.process(path)
                elif route == "process+cleanup":
                    res = r.process(path, cleanup=True)
                elif route == "compressed":
                    res = r.process_compressed(path)
                elif route == "compressed-keep":
                    res = r.process_compressed(path, cleanup=False)
                elif route == "direct":
                    res = r.process_folder(path) if kind == "folder" else r.process_file(path)
                else:
                    with target.TexFileExtractor.from_compressed(path, cleanup=route == "extractor") as (m, d):
                        if not os.path.isfile(os.path.join(d, m)):
                            obs.fail("missing", f"{what}: {m} is not in {d}")
                        if route == "extractor":
                            z = rng.random()
                            if z < 0.4:
                                raise Fault("user code")
                            if z < 0.6:
                                raise KeyboardInterrupt
                    res = (m, d)
            finally:
                undo()
                tempfile.mkdtemp = real_mkdtemp
        except BaseException as e:
            if type(e).__name__ == "CaseTimeout":
                raise
            err = e
        obs.ev()
        obs.count("temporary directories", len(made))
        obs.count("faults fired", bool(fired))
        left = sorted(os.listdir(tmp))
        obs.seen("history", (kind, bad, route, fname if fired else None, type(err).__name__))
        obs.sample({"case": what, "outcome": repr(err), "left": len(left)})

        def bad_(key, msg):
            obs.fail(key, f"{what}: {msg}; error {err!r}; left {left}", {"case": what})
        if err is not None:
            if left:
                bad_("leak on failure", "failed, and the temporary directory is still there")
            if not fired and bad is None and not isinstance(err, (Fault, KeyboardInterrupt)):
                bad_("fails", "a good input fails")
            if not fired and bad in ("nomain", "empty", "garbage") and not isinstance(err, Exception):
                bad_("error kind", "unexpected kind of error")
            if fired and exc is not None and not isinstance(exc, Exception) and not isinstance(err, type(exc)):
                bad_("interrupt", f"{exc!r} came out as {err!r}")
        elif not archive:
            if left or made:
                bad_("needless", f"temporary directories made for a {kind}: {made}")
            if getattr(res, "temp_dir", None) is not None:
                bad_("needless", f"temp_dir of a {kind} is {res.temp_dir}")
            res.cleanup()
        elif route.startswith("extractor"):
            if route == "extractor" and left:
                bad_("not removed", "left after the context ended")
            if route == "extractor-keep" and len(left) != 1:
                bad_("gone", "removed although cleanup=False")
        elif route in ("process+cleanup", "compressed"):
            if left:
                bad_("not removed", "left although cleanup=True")
            for _ in range(2):
                try:
                    res.cleanup()
                except Exception as e:
                    bad_("cleanup", f"cleanup() after cleanup=True raises {e!r}")
        else:
            td = res.temp_dir
            if td is None or len(left) != 1 or os.path.realpath(str(td)) != os.path.realpath(os.path.join(tmp, left[0])):
                bad_("gone", f"the temporary directory is {td}")
            elif not os.path.isfile(str(res.main_tex_path)):
                bad_("gone", f"the main file {res.main_tex_path} is gone before cleanup()")
            try:
                r.to_json(res)
                r.process_file(os.path.join(base, "src", main))
                still = os.listdir(tmp)
                if still != left:
                    bad_("gone", "the temporary directory is removed by a later conversion")
                res.cleanup()
            except Exception as e:
                bad_("cleanup", f"cleanup() raises {e!r}")
            if os.listdir(tmp):
                bad_("not removed", "left after cleanup()")
            if res.temp_dir is not None:
                bad_("not reset", f"temp_dir is {res.temp_dir} after cleanup()")
            try:
                res.cleanup()
            except Exception as e:
                bad_("cleanup", f"a second cleanup() raises {e!r}")
        d = fsmon.changes(snap, fsmon.snapshot(base, skip=(tmp,)))
        if d:
            bad_("side effect", f"files next to the input changed: {d[:4]}")


def plan(tier):
    return {"cases": 600 if tier == "quick" else 8000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 60}
