"""Purity monitor: the same input gives the same bytes in processes that differ in
everything but the input, and a conversion leaves its process and the file system
as they were."""
import json
import locale
import gc
import logging
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

from .. import flow, fsmon, fuzz, project, statedocs, target
from ..core import CURRENT, ROOT

PROPERTY = "P16"
LEVEL = "exploration"
RULE = "distinct inputs (kind and text) compared between processes"
ASSUMPTIONS = ["input files do not change during a conversion", "file names are ASCII"]
MIN_EVENTS = {"evaluations": 1500, "processes": 60, "conversions": 2000, "audited": 800, "audit events": 3000}


def make(rng, root, k):
    z = rng.random()
    if z < 0.2:
        return {"text": statedocs.text(rng), "pre": rng.random() < 0.5}
    if z < 0.35:
        return {"text": fuzz.hostile(rng)[1][:2000].encode("utf-8", "replace").decode(), "pre": rng.random() < 0.5}
    if z < 0.5:
        return {"text": fuzz.document(rng), "pre": rng.random() < 0.5}
    d = os.path.join(root, "d%d" % k)
    files = {}
    if z < 0.75:
        g = project.ProjectGen(rng, {}, {"appendix": 1}, depth=3, richtable=True, richcode=True)
        files["main.tex"] = "\\documentclass{article}\n\\begin{document}\n" + g.blocks(rng.randrange(2, 7), top=True)[0] + "\n\\end{document}\n"
        files.update(g.files)
        for n in range(rng.randrange(0, 3)):
            files["sub%d.tex" % n] = "\\documentclass{article}\\begin{document} sub %d \\end{document}" % n
    else:
        files["main.tex"] = statedocs.text(rng, True, files) if rng.random() < 0.5 else statedocs.crowd(rng, files)
    project.write(d, files)
    z = rng.random()
    if z < 0.4 or "\\documentclass" not in files["main.tex"]:
        return {"path": "d%d/main.tex" % k, "files": files}
    if z < 0.6:
        return {"path": "d%d" % k, "files": files}
    p = "a%d" % k + rng.choice([".zip", ".tar.gz"])
    (project.make_zip if p.endswith("zip") else project.make_tar)(os.path.join(root, p), files, rng)
    return {"path": p, "files": files}


def world(rng, root, k):
    """-> environment of a process"""
    tmp = os.path.join(root, "t%d" % k)
    home = os.path.join(root, "h%d" % k)
    os.makedirs(tmp)
    os.makedirs(home)
    env = {"PATH": os.environ.get("PATH", "/usr/bin"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent-pycache",
           "PYTHONHASHSEED": str(rng.choice([0, 1, rng.randrange(1 << 32)])), "HOME": home, "TMPDIR": tmp,
           "TZ": rng.choice(["UTC", "Asia/Tokyo", "America/New_York"])}
    if "RV_REPO" in os.environ:
        env["RV_REPO"] = os.environ["RV_REPO"]
    if k:
        env.update(rng.choice([{"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LANG": "C.UTF-8"}, {"LC_ALL": "POSIX"}, {"PYTHONUTF8": "1"}, {}]))
        if rng.random() < 0.3:
            env["PYTHONOPTIMIZE"] = rng.choice(["1", "2"])
        if rng.random() < 0.3:
            env.update({"TEXINPUTS": "/nowhere:", "COLUMNS": "10", "LATEX2JSON": "1", "DEBUG": "1", "LOGLEVEL": "DEBUG", "CI": "true"})
        if rng.random() < 0.2:
            env["PYTHONMALLOC"] = "debug"
    return env


def between(rng, obs, root, reqs):
    n = 3
    outs = []
    jobs = []
    for k in range(n):
        env = world(rng, root, k)
        cwd = rng.choice([root, os.path.join(root, "h%d" % k), "/", ROOT])
        rel = rng.random() < 0.5
        mine = []
        for q in reqs:
            if "path" in q:
                p = os.path.join(root, q["path"])
                mine.append({"path": os.path.relpath(p, cwd) if rel else p})
            else:
                mine.append(q)
        order = list(range(len(mine)))
        src, dst = os.path.join(root, "in%d.json" % k), os.path.join(root, "out%d.json" % k)
        with open(src, "w", encoding="utf-8") as f:
            json.dump([mine[j] for j in order], f)
        mask = rng.choice([0o022, 0o077, 0o002])
        p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", os.path.join(ROOT, "rv", "pure.py"), src, dst],
                           cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, preexec_fn=lambda: os.umask(mask))
        if p.returncode or not os.path.exists(dst):
            obs.fail("process", f"a converting process ends with {p.returncode}: {p.stderr.decode('utf-8', 'replace')[-500:]} ({env})", {})
            return
        obs.count("processes")
        with open(dst, encoding="utf-8") as f:
            outs.append(json.load(f))
        jobs.append((env, cwd, rel))
        obs.count("conversions", len(reqs))
        left = os.listdir(env["TMPDIR"]) + os.listdir(env["HOME"])
        if left:
            obs.fail("left", f"files left behind: {left}", {})
    for j, q in enumerate(reqs):
        obs.ev()
        obs.seen("input", repr(q))
        for k in range(1, n):
            a, b = outs[0][j], outs[k][j]
            if a != b:
                x = next((t for t in range(min(len(a), len(b))) if a[t] != b[t]), min(len(a), len(b)))
                obs.fail("differs", f"same input, other process: …{a[max(0, x - 60):x + 80]!r} / …{b[max(0, x - 60):x + 80]!r}\nworlds {jobs[0]} / {jobs[k]}\n{q}", {"input": q})
                break


def state():
    sig = {}
    for s in signal.valid_signals():
        try:
            sig[int(s)] = repr(signal.getsignal(s))
        except ValueError:
            pass
    mask = os.umask(0o22)
    os.umask(mask)
    return {"cwd": os.getcwd(), "environ": dict(os.environ), "recursion limit": sys.getrecursionlimit(), "open files": sorted(os.listdir("/proc/self/fd")),
            "threads": sorted(t.name for t in threading.enumerate()), "signals": sig, "umask": mask, "warnings": repr(warnings.filters), "locale": locale.setlocale(locale.LC_ALL),
            "random": hash(random.getstate()), "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions), "gc": (gc.isenabled(), gc.get_threshold()),
            "path": list(sys.path), "std": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "digits": sys.get_int_max_str_digits(), "hooks": (id(sys.excepthook), id(sys.displayhook), sys.gettrace(), sys.getprofile()),
            "switch": sys.getswitchinterval(), "tempdir": tempfile.gettempdir(), "timers": signal.getitimer(signal.ITIMER_REAL), "builtins": id(__builtins__)}


def inside(rng, obs, root, reqs):
    """conversions in this process, watched"""
    tmp = os.path.join(root, "tmp")
    os.makedirs(tmp)
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    outdir = os.path.join(root, "out")
    os.makedirs(outdir)
    try:
        for q in reqs:
            CURRENT["input"] = repr(q)
            q = dict(q)
            if "path" in q:
                q["path"] = os.path.join(root, q["path"])
            before, files = state(), fsmon.snapshot(root)
            save = "path" in q and rng.random() < 0.4
            dest = os.path.join(outdir, "o.json")
            err = ""
            with fsmon.Audit() as log:
                try:
                    if "path" in q:
                        r = target.TexReader()
                        if save:
                            res = r.process(q["path"], cleanup=False)
                            r.save_to_json(res, dest)
                        else:
                            res = r.process(q["path"])
                            r.to_json(res)
                        res.cleanup()
                    else:
                        target.TokenBuilder().build(target.LatexParser().parse(q["text"], preprocess=q["pre"]))
                except target.TexProcessingError as e:
                    err = str(e)
            obs.ev()
            obs.count("audited")
            obs.count("audit events", len(log) + 1)
            gc.collect() if rng.random() < 0.1 else None
            after = state()
            for k in before:
                if before[k] != after[k]:
                    obs.fail("state", f"a conversion changes the process: {k}: {str(before[k])[:200]} -> {str(after[k])[:200]}\n{q}", {"input": q})
                    return
            archive = "path" in q and q["path"].endswith((".zip", ".gz"))
            for e, p in fsmon.writes(log):
                p = os.path.abspath(p)
                if not ((archive and p.startswith(tmp + os.sep)) or (save and p == dest) or (save and e == "os.mkdir" and p == outdir) or p == "/dev/null"):
                    obs.fail("writes", f"a conversion writes: {e} {p}\n{q}", {"input": q})
                    return
            bad = fsmon.outside(log)
            if bad:
                obs.fail("reaches out", f"a conversion reaches out: {str(bad)[:300]}\n{q}", {"input": q})
                return
            if os.path.exists(dest):
                os.remove(dest)
            ch = [c for c in fsmon.changes(files, fsmon.snapshot(root)) if c[1] not in ("tmp", "out")]
            if ch:
                obs.fail("files", f"a conversion changes files: {ch[:5]}\n{q}", {"input": q})
                return
            obs.seen("kind", (q.get("path", "text")[-4:], save, err[:20]))
    finally:
        tempfile.tempdir = old


def case(i, rng, obs, tier):
    root = os.path.join(flow.scratch(), "p16")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    reqs = [make(rng, root, k) for k in range(30)]
    rng.shuffle(reqs)
    between(rng, obs, root, reqs)
    inside(rng, obs, root, reqs)
    obs.sample({"inputs": [str(q)[:150] for q in reqs[:4]]})


def plan(tier):
    return {"cases": 48 if tier == "quick" else 800, "budget": 200 if tier == "quick" else 1500, "cpu_limit": 120}
