"""Containment monitor: hostile archives change nothing outside the temporary
directory, nothing outside is read through them, harmless members stay usable.

Every hostile name used here points into the scratch folder of the check even if
the code under test follows it blindly."""
import io
import json
import os
import shutil
import tarfile
import tempfile
import zipfile

from .. import flow, fsmon, gen, norm, project, target
from ..core import CURRENT

PROPERTY = "P20"
LEVEL = "exploration"
RULE = "distinct (archive kind, kinds of hostile members) combinations"
ASSUMPTIONS = ["hostile members escape by path, by symbolic link or by hard link", "the archive is not changed while it is read"]
MIN_EVENTS = {"evaluations": 500, "hostile members": 1500, "snapshots": 500, "audit events": 3000, "harmless files": 1000}

DEPTH = 6


def ziplink(name):
    zi = zipfile.ZipInfo(name)
    zi.create_system, zi.external_attr = 3, 0o120777 << 16
    return zi


def case(i, rng, obs, tier):
    base = os.path.join(flow.scratch(), "p20")
    for k in range(4):
        shutil.rmtree(base, ignore_errors=True)
        one(rng, obs, base)


def one(rng, obs, base):
    g = gen.Gen(rng)
    # base/victim/** may be attacked; the temporary directory lies DEPTH below base
    tmp = os.path.join(base, *["d%d" % j for j in range(DEPTH)], "tmp")
    os.makedirs(tmp)
    tempfile.tempdir = tmp
    secret = "zzsecret" + g.word()
    victim = os.path.join(base, "victim")
    project.write(base, {"victim/file.tex": "\\documentclass{article}" + secret, "victim/dir/x.txt": secret, "victim/run.sh": "#!/bin/sh\n", "victim/refs.bib": "@misc{k, title={%s}}\n" % secret,
                         "d0/near.txt": "near", "d0/d1/d2/d3/d4/d5/near.tex": secret, "d0/d1/d2/d3/d4/d5/tmp/other/keep.txt": "keep"})
    os.symlink(os.path.join(victim, "dir"), os.path.join(victim, "link"))
    # the harmless project
    words = [g.word() for _ in range(4)]
    good = {"main.tex": "\\documentclass{article}\n\\begin{document}\n%s \\input{sub/part} %s \\input{..x/odd} \\input{a..b} \\input{sub/zlink} \\input{zdir/near} \\bibliography{zbib}\n\\end{document}\n" % (words[0], words[2]),
            "sub/part.tex": words[1], "..x/odd.tex": words[3], "a..b.tex": "two", "sub/...": "dots", "img/..png": "p"}
    kind = rng.choice(["zip", "tar.gz", "tgz"])
    arch = os.path.join(base, "in." + kind)
    up = lambda n: "../" * n
    rel = lambda: rng.choice(["", "sub/", "./", "x/y/"])
    to_base = DEPTH + 2  # from the extraction folder to base
    hostile, kinds = [], set()

    def path_escape():
        """a member name that leaves the temporary directory"""
        z = rng.randrange(9)
        kinds.add("path%d" % z)
        f = rng.choice(["victim/file.tex", "victim/new.txt", "evil.tex", "victim/dir/x.txt", "victim/run.sh", "victim/link/y.txt"])
        n = rng.randrange(1, to_base)
        if z == 0:
            return up(to_base) + f
        if z == 1:
            return os.path.join(base, f)
        if z == 2:
            return up(n) + "evil%d.txt" % n
        if z == 3:
            return "sub/" + up(n + 1) + "evil.tex"
        if z == 4:
            return "sub/../.." + "/.." * (to_base - 1) + "/" + f
        if z == 5:
            return "./" + up(to_base) + f
        if z == 6:
            return "../other/keep.txt"
        if z == 7:
            return "x/" + "/".join(["y"] * 3) + "/" + up(4 + to_base) + f
        return "sub//" + up(1 + to_base) + f

    payload = ("\\documentclass{article} zzevil " + g.word()).encode()
    extra = []
    linked = {"sub/zlink.tex": [os.path.join(victim, "file.tex"), up(to_base + 1) + "victim/file.tex"], "zbib.bib": [os.path.join(victim, "refs.bib"), up(to_base) + "victim/refs.bib"],
              "zdir": [os.path.join(base, "d0/d1/d2/d3/d4/d5"), up(2)]}
    if kind == "zip":
        for _ in range(rng.randrange(1, 8)):
            n = path_escape()
            extra.append((n, payload))
        if rng.random() < 0.2:
            extra.append(("/" * 2 + os.path.join(base, "evil2.txt").lstrip("/"), payload))
            kinds.add("double slash")
        for n in ("sub/zlink.tex", "zdir", "zbib.bib"):
            # links as zip archives store them
            if rng.random() < 0.3:
                kinds.add("zip link")
                extra.append((ziplink(n), rng.choice(linked[n]).encode()))
        project.make_zip(arch, good, rng, "", extra)
    else:
        def add(name, type_=tarfile.REGTYPE, link=None, data=payload, mode=0o644):
            ti = tarfile.TarInfo(name)
            ti.type, ti.mode = type_, mode
            if link is not None:
                ti.linkname = link
            if type_ == tarfile.REGTYPE:
                ti.size = len(data)
                extra.append((ti, data))
            else:
                extra.append((ti, None))
        for _ in range(rng.randrange(1, 7)):
            z = rng.randrange(9)
            if z < 3:
                add(path_escape())
                continue
            n = "l%d" % len(extra)
            out = rng.choice([victim, os.path.join(base, "victim/dir"), up(to_base) + "victim", base, up(to_base), up(rng.randrange(1, to_base))])
            outf = rng.choice([os.path.join(victim, "file.tex"), up(to_base) + "victim/file.tex", os.path.join(victim, "dir/x.txt"), up(1) + "other/keep.txt"])
            kinds.add("link%d" % z)
            if z == 3:      # folder link and a file written through it
                add(n, tarfile.SYMTYPE, out)
                add(n + "/" + rng.choice(["evil.tex", "file.tex", "new/evil.txt", "x.txt"]))
            elif z == 4:    # link to a file, then a member of the same name
                add(n, tarfile.SYMTYPE, outf)
                add(n)
            elif z == 5:    # hard link to a file outside, then overwritten
                add(n, tarfile.LNKTYPE, outf)
                add(n)
            elif z == 6:    # a file of the document is a link to a secret
                add("a_main.tex", rng.choice([tarfile.SYMTYPE, tarfile.LNKTYPE]), outf.replace("dir/x.txt", "file.tex"))
            elif z == 7:    # chain of links
                add(n + "a", tarfile.SYMTYPE, ".")
                add(n + "b", tarfile.SYMTYPE, n + "a/" + up(rng.randrange(1, 3)))
                add(n + "b/evil.txt")
                add(n + "c", tarfile.SYMTYPE, n + "b/" + up(to_base) + "victim")
                add(n + "c/evil.txt")
            else:           # modes, special files and folders outside
                add(rng.choice([up(to_base) + "victim/newdir", up(2) + "newdir", os.path.join(base, "newdir")]), tarfile.DIRTYPE, mode=0o777)
                add(n + "fifo", rng.choice([tarfile.FIFOTYPE, tarfile.CHRTYPE]))
        for n in ("sub/zlink.tex", "zdir", "zbib.bib"):
            if rng.random() < 0.3:
                kinds.add("document link")
                to = rng.choice(linked[n])
                # the target of a hard link is a name in the archive
                add(n, rng.choice([tarfile.SYMTYPE] * 2 + [tarfile.LNKTYPE]) if n != "zdir" else tarfile.SYMTYPE, to)
        project.make_tar(arch, good, rng, "", extra)
        if rng.random() < 0.5:
            # hostile members first
            with tarfile.open(arch, "w:gz") as t:
                for ti, d in extra:
                    t.addfile(ti, io.BytesIO(d) if d is not None else None)
                for n, d in good.items():
                    ti = tarfile.TarInfo(n)
                    ti.size = len(d.encode())
                    t.addfile(ti, io.BytesIO(d.encode()))
    names = [e[0] if isinstance(e[0], str) else (e[0].filename, "link", e[1]) if kind == "zip" else (e[0].name, e[0].type, e[0].linkname) for e in extra]
    CURRENT["input"] = f"{kind}: {names}"
    before = fsmon.snapshot(base)
    reader = target.TexReader()
    err = res = None
    with fsmon.Audit() as log:
        try:
            if rng.random() < 0.3:
                with target.TexFileExtractor.from_compressed(arch, cleanup=False) as (main, d):
                    res = reader.process_file(os.path.join(d, main))
                    res.temp_dir = d
            else:
                res = reader.process(arch)
        except Exception as e:
            err = e
    obs.ev()
    obs.count("hostile members", len(extra))
    obs.count("audit events", len(log))
    obs.count("kind:" + kind)
    obs.seen("attack", (kind, tuple(sorted(kinds))))
    obs.sample({"kind": kind, "members": names})
    if err is not None:
        obs.fail("refused", f"{kind} {names}: the harmless rest is not converted: {type(err).__name__}: {err}")
        after = fsmon.snapshot(base)
    else:
        td = str(res.temp_dir)
        after = fsmon.snapshot(base, skip=(td,))
        after.pop(os.path.relpath(td, base), None)
        # what was extracted
        for d, dirs, files in os.walk(td):
            for n in dirs + files:
                p = os.path.join(d, n)
                if os.path.islink(p):
                    to = os.path.realpath(p)
                    if not (to + "/").startswith(os.path.realpath(td) + "/"):
                        obs.fail("link out", f"{kind} {names}: extracted link {n} -> {os.readlink(p)} leads outside")
        for n, d in good.items():
            p = os.path.join(td, n)
            obs.count("harmless files")
            if not os.path.isfile(p) or open(p).read() != d:
                obs.fail("harmless", f"{kind} {names}: the harmless member {n} is not extracted as it is")
        text = json.dumps(json.loads(reader.to_json(res)))
        if secret in text:
            obs.fail("read outside", f"{kind} {names}: text of a file outside of the archive in the result")
        got = [w for w in flow.plain_words(flow.normal(json.loads(text)["tokens"]))]
        if os.path.basename(str(res.main_tex_path)) == "main.tex" and got[:5] != [words[0], words[1], words[2], words[3], "two"]:
            obs.fail("content", f"{kind} {names}: {got}")
    obs.count("snapshots")
    diff = fsmon.changes(before, after)
    if diff:
        obs.fail("escape", f"{kind} {names}: changed outside of the temporary directory: {diff[:5]}")
    tr = os.path.realpath(tmp) + "/"
    for e, p in fsmon.writes(log):
        if os.path.isabs(p) and not (os.path.realpath(p) + "/").startswith(tr):
            obs.fail("write event", f"{kind} {names}: {e} {p}")
    if fsmon.outside(log):
        obs.fail("reach out", f"{fsmon.outside(log)[:2]}")
    if res is not None:
        res.cleanup()


def plan(tier):
    return {"cases": 500 if tier == "quick" else 8000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 60}
