"""Isolation monitor: readers and parsers that have a history, and readers that
work at the same time, give what a process that never converted anything gives."""
import json
import os
import shutil
import sys
import threading

from .. import flow, fuzz, norm, project, statedocs, target
from ..core import CURRENT, CaseTimeout
from ..zygote import Zygote

PROPERTY = "P15"
LEVEL = "exploration"
RULE = "distinct histories (kinds of conversions and failures before a conversion)"
ASSUMPTIONS = ["a parser used directly is cleared between documents, as the reader does", "threads do not share a reader"]
MIN_EVENTS = {"evaluations": 1500, "reused": 800, "concurrent": 200, "after failure": 200, "documents": 1000}

Z = {}


def answer(req):
    if "path" in req:
        return json.loads(json.dumps(whole(target.TexReader().process(req["path"]))))
    return target.convert(req["text"], req["pre"])


def whole(res):
    return json.loads(target.TexReader().to_json(res))


def worker_init(obs, tier):
    Z["z"] = Zygote(answer)


def worker_done(obs, tier):
    Z["z"].close()


def make(rng, root, k):
    """one input -> request"""
    if rng.random() < 0.35:
        return {"text": statedocs.text(rng), "pre": rng.random() < 0.5}
    files = {}
    files["main.tex"] = statedocs.text(rng, True, files)
    d = os.path.join(root, "d%d" % k)
    project.write(d, files)
    z = rng.random()
    main = files["main.tex"]
    if z < 0.5 or "\\documentclass" not in main:
        return {"path": os.path.join(d, "main.tex"), "files": files}
    if z < 0.7:
        return {"path": d, "files": files}
    p = os.path.join(root, "a%d" % k) + rng.choice([".zip", ".tar.gz"])
    (project.make_zip if p.endswith("zip") else project.make_tar)(p, files, rng)
    return {"path": p, "files": files}


class Boom(Exception):
    pass


def trouble(rng, reader, root):
    """make a conversion with this reader fail or end early -> what happened"""
    k = rng.randrange(5)
    try:
        if k == 0:
            reader.process(os.path.join(root, "nothing.tex"))
        elif k == 1:
            p = os.path.join(root, "bad.zip")
            with open(p, "wb") as f:
                f.write(b"PK\x03\x04 no archive")
            reader.process(p)
        elif k == 2:
            p = os.path.join(root, "hostile.tex")
            _, t = fuzz.hostile(rng)
            with open(p, "w", encoding="utf-8", errors="replace") as f:
                f.write(t[:3000])
            reader.process(p)
        else:
            # stopped somewhere in the middle
            p = os.path.join(root, "stopped.tex")
            with open(p, "w") as f:
                f.write(statedocs.text(rng) + "\n" + statedocs.text(rng))
            n = [rng.randrange(1, 60)]
            exc = rng.choice([Boom, KeyboardInterrupt, MemoryError])

            where = rng.choice([("_process_token", reader.parser), ("_check_handlers", reader.parser), ("build", reader.token_builder), ("parse", reader.parser), ("_check_for_new_definitions", reader.parser)])
            real = getattr(where[1], where[0])

            def wrap(*a, **kw):
                n[0] -= 1
                if n[0] <= 0 or (where[0] == "build"):
                    raise exc()
                return real(*a, **kw)
            setattr(where[1], where[0], wrap)
            try:
                reader.process(p)
            finally:
                delattr(where[1], where[0])
        return "done%d" % k
    except (Exception, KeyboardInterrupt) as e:
        return type(e).__name__ + str(k)


def case(i, rng, obs, tier):
    root = os.path.join(flow.scratch(), "p15")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    reqs = [make(rng, root, k) for k in range(rng.randrange(3, 8))]
    obs.count("documents", len(reqs))
    base = []
    for q in reqs:
        ok, out = Z["z"].ask(q)
        if ok != "ok":
            obs.fail("fails", f"conversion fails: {out}\n{q}", {"input": q})
            return
        base.append(out)
    if i % 4 == 3:
        threads(rng, obs, reqs, base)
        return
    reader, parser, builder = target.TexReader(), target.LatexParser(), target.TokenBuilder()
    history, kept = [], []
    for _ in range(rng.randrange(3, 14)):
        if rng.random() < 0.25:
            history.append(trouble(rng, reader, root))
            obs.count("after failure")
            continue
        k = rng.randrange(len(reqs))
        q = reqs[k]
        CURRENT["input"] = repr(q)
        if "path" in q:
            res = reader.process(q["path"])
            got = json.loads(reader.to_json(res))
            kept.append((k, res))
            res.cleanup()
        else:
            parser.clear()
            builder.clear() if rng.random() < 0.5 else None
            got = target.dump(builder.build(parser.parse(q["text"], preprocess=q["pre"])))
        obs.ev()
        obs.count("reused")
        obs.seen("history", (tuple(history), k))
        d = norm.first_diff(base[k], got)
        if d:
            obs.fail("history", f"after {history}: fresh process vs reused reader: {d}\n{q}", {"input": q})
            return
        history.append("%s%d" % ("path" if "path" in q else "text", k))
    # what came out earlier is still the same
    for k, res in kept:
        obs.ev()
        d = norm.first_diff(base[k], json.loads(reader.to_json(res)))
        if d:
            obs.fail("result changed", f"after {history}: an earlier result has changed: {d}\n{reqs[k]}", {"input": reqs[k]})
            return
    obs.sample({"history": history})


def threads(rng, obs, reqs, base):
    n = rng.randrange(2, 6)
    orders = [[rng.randrange(len(reqs)) for _ in range(3)] for _ in range(n)]
    bad, log = [], []
    start = threading.Barrier(n)

    def run(t):
        try:
            reader, parser = target.TexReader(), target.LatexParser()
            start.wait(30)
            for k in orders[t]:
                q = reqs[k]
                if "path" in q:
                    got = whole(reader.process(q["path"], cleanup=True))
                else:
                    parser.clear()
                    got = target.dump(target.TokenBuilder().build(parser.parse(q["text"], preprocess=q["pre"])))
                log.append((t, k))
                d = norm.first_diff(base[k], got)
                if d:
                    bad.append((k, d))
        except BaseException as e:
            bad.append((-1, f"{type(e).__name__}: {e}"))
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    try:
        ts = [threading.Thread(target=run, args=(t,), daemon=True) for t in range(n)]
        [t.start() for t in ts]
        [t.join(60) for t in ts]
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        obs.fail("hang", f"threads do not end: {orders}", {})
        return
    obs.ev(len(log))
    obs.count("concurrent", len(log))
    obs.seen("interleaving", tuple(log))
    for k, d in bad[:1]:
        obs.fail("threads", f"{n} readers at the same time: {d}\n{reqs[k] if k >= 0 else ''}", {"input": reqs})


def plan(tier):
    return {"cases": 1000 if tier == "quick" else 20000, "budget": 100 if tier == "quick" else 1500, "cpu_limit": 90}
