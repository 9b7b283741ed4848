"""Totality: every text is converted, in bounded time, without an exception and
always to the same result.

Monitors: exceptions reaching the caller; exceptions swallowed by the reader
(recording logger); CPU time per conversion; equality of two conversions."""
import json
import os
import time

from .. import flow, fuzz, target
from ..core import CURRENT

PROPERTY = "P01"
LEVEL = "exploration"
RULE = "distinct (kind of input, structural shape of the output) pairs"
ASSUMPTIONS = ["texts up to about 4 kB of hostile input and 20 kB of damaged documents; nesting up to 200"]
MIN_EVENTS = {"evaluations": 3000}
LIMIT = 10.0  # CPU seconds for one small text; ordinary ones take milliseconds


class Recorder:
    """duck-typed logger: remembers swallowed errors"""

    def __init__(self):
        self.errors = []

    def error(self, msg, *a, **k):
        self.errors.append((str(msg), tuple(str(x) for x in a)))

    exception = critical = error

    def _no(self, *a, **k):
        pass

    info = debug = warning = warn = log = _no

    def isEnabledFor(self, *_):
        return False

    def getChild(self, *_):
        return self


def shape(x, d=0):
    if isinstance(x, dict):
        return (x.get("type"), tuple(sorted(x)), shape(x.get("content"), d + 1) if d < 3 else 0)
    if isinstance(x, list):
        out = []
        for y in x:
            s = shape(y, d + 1)
            if not out or out[-1] != s:
                out.append(s)
        return tuple(out[:12])
    return type(x).__name__


def via_file(text):
    path = os.path.join(flow.scratch(), "main.tex")
    with open(path, "w", encoding="utf-8", newline="", errors="surrogatepass") as f:
        f.write(text)
    rec = Recorder()
    reader = target.TexReader(logger=rec)
    done = reader.process(path)
    res = json.loads(reader.to_json(done))
    if len(text) % 3 == 0:
        reader.save_to_json(done, os.path.join(flow.scratch(), "main.json"))
    return res["tokens"], rec.errors


def case(i, rng, obs, tier):
    for k in range(6):
        kind, text = fuzz.hostile(rng)
        CURRENT["input"] = text
        for mode in ("plain", "pre", "file"):
            if mode == "file" and k % 3:
                continue
            t0 = time.process_time()
            errors = []
            if mode == "file":
                out, errors = via_file(text)
            else:
                out = target.convert(text, mode == "pre")
            dt = time.process_time() - t0
            obs.ev()
            obs.count("kind:" + kind)
            obs.count("mode:" + mode)
            obs.count("cpu_ms_total", int(dt * 1000))
            obs.seen("outcome", (kind, shape(out)))
            obs.sample({"kind": kind, "input": text[:300], "tokens": len(out), "cpu_s": round(dt, 3)})
            if dt > LIMIT:
                obs.fail("slow", f"[{mode}] {dt:.1f}s CPU for {len(text)} characters\n{text[:3000]}", {"input": text})
            bad = [e for e in errors if e[0].startswith("Failed to parse file")]
            if bad:
                obs.fail("swallowed", f"[file] exception swallowed while converting: {bad[0]}\n{text[:3000]}", {"input": text})
            if k == 0 and mode != "file":
                again = target.convert(text, mode == "pre")
                obs.count("repeats")
                if again != out:
                    obs.fail("unstable", f"[{mode}] two conversions of the same text differ\n{text[:3000]}", {"input": text})


def plan(tier):
    return {"cases": 700 if tier == "quick" else 30000, "budget": 120 if tier == "quick" else 1800, "cpu_limit": 45}
