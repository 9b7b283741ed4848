"""Check runner: seeded cases in forked workers, watchdogs, monitors' counters,
verdicts, known findings, evidence.

Verdict rules
  exit 0  every observed execution satisfied the property (known findings are
          reported on KNOWN-FINDING lines and do not count)
  exit 1  at least one unlisted violation; a VIOLATION line with a replay file
  exit 2  inconclusive: the target cannot be imported, or the monitors observed
          too little to say anything
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
OUT = os.environ.get("RV_OUT", ROOT)


class CaseTimeout(BaseException):
    """Raised by the CPU-time watchdog; a BaseException so that broad
    'except Exception' blocks of the code under test cannot swallow it."""


class Unreadable(Exception):
    """The observed output does not have the shape the monitors can read."""


class Obs:
    """What one worker observed."""

    def __init__(self, known=()):
        self.counters = collections.Counter()
        self.distinct = collections.defaultdict(set)
        self.samples = []
        self.violations = []
        self.known = set(known)
        self.known_hit = {}
        self.evaluations = 0
        self.case_id = None

    # -- observation ---------------------------------------------------
    def ev(self, n=1):
        """n evaluations of the oracle."""
        self.evaluations += n

    def count(self, name, n=1):
        self.counters[name] += n

    def seen(self, kind, value):
        """Record a distinct observed behaviour (a shape, a state, ...)."""
        h = hashlib.blake2b(repr(value).encode("utf-8", "replace"), digest_size=8).hexdigest()
        self.distinct[kind].add(h)

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    # -- verdict -------------------------------------------------------
    def fail(self, key, msg, data=None):
        """key identifies the input / call site / mechanism."""
        if key in self.known:
            self.known_hit.setdefault(key, msg)
            return
        if len(self.violations) < 12:
            self.violations.append(
                {"key": key, "msg": str(msg)[:4000], "case": self.case_id, "data": data}
            )


def load_known(prop):
    """Entries of known_findings.jsonl for one property: {key: text}."""
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = {}
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if not line:
                continue
            e = json.loads(line)
            if e.get("status") == "known" and e["property"] == prop:
                out[e["key"]] = e["what"]
    return out


def _alarm(signum, frame):
    raise CaseTimeout()


def case_rng(seed, prop, i):
    h = hashlib.sha256(f"{seed}/{prop}/{i}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def run_case(mod, i, obs, seed, tier, cpu_limit):
    rng = case_rng(seed, mod.PROPERTY, i)
    obs.case_id = i
    signal.setitimer(signal.ITIMER_PROF, cpu_limit, 1.0)
    try:
        mod.case(i, rng, obs, tier)
    except CaseTimeout:
        obs.count("timeouts")
        obs.fail("hang", f"case {i}: no answer within {cpu_limit}s of CPU time",
                 {"current": getattr(mod, "CURRENT", None) or CURRENT.get("input")})
    except MemoryError:
        obs.fail("memory", f"case {i}: memory limit exceeded", {"current": CURRENT.get("input")})
    except Unreadable as e:
        obs.fail("unreadable", f"case {i}: {e}", {"current": CURRENT.get("input")})
    except Exception as e:  # a crash outside what the case handles itself
        tb = traceback.extract_tb(e.__traceback__)
        site = [f for f in tb if "/latex2json/" in f.filename]
        if site:
            f = site[-1]
            obs.fail(
                f"crash:{type(e).__name__}:{os.path.basename(f.filename)}:{f.name}",
                f"case {i}: {type(e).__name__}: {str(e)[:300]} at {f.filename}:{f.lineno} ({f.name})",
                {"current": CURRENT.get("input")},
            )
        else:
            raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


# the input being processed right now; cases set it so that crashes/hangs replay
CURRENT = {}


def _cleanup():
    from . import flow
    flow.drop_scratch()


def worker(mod, idxs, known, seed, tier, budget, cpu_limit, wfd):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    obs = Obs(known)
    null = os.open(os.devnull, os.O_WRONLY)  # messages of the code under test
    os.dup2(null, 1)
    signal.signal(signal.SIGPROF, _alarm)
    t0 = time.monotonic()
    done = 0
    err = None
    try:
        if hasattr(mod, "worker_init"):
            mod.worker_init(obs, tier)
        for i in idxs:
            if time.monotonic() - t0 > budget:
                break
            if len(obs.violations) >= 6 or obs.counters["timeouts"] >= 2:
                break
            run_case(mod, i, obs, seed, tier, cpu_limit)
            done += 1
        if hasattr(mod, "worker_done"):
            obs.case_id = "end"
            mod.worker_done(obs, tier)
    except BaseException:
        err = traceback.format_exc()
    res = {
        "done": done, "err": err, "counters": dict(obs.counters),
        "distinct": {k: sorted(v) for k, v in obs.distinct.items()},
        "samples": obs.samples, "violations": obs.violations,
        "known_hit": obs.known_hit, "evaluations": obs.evaluations,
    }
    _cleanup()
    with os.fdopen(wfd, "w") as f:
        json.dump(res, f, default=repr)
    sys.stdout.flush()
    os._exit(0)


def execute(mod, tier, seed, only=None):
    t0 = time.monotonic()
    plan = mod.plan(tier)
    n = max(8, int(plan["cases"] * float(os.environ.get("RV_SCALE", 1))))  # RV_SCALE: a sample, for audits
    budget = plan.get("budget", 60 if tier == "quick" else 600)
    cpu_limit = plan.get("cpu_limit", 20)
    nw = min(plan.get("workers", 8), max(1, n), os.cpu_count() or 1)
    if os.environ.get("RV_WORKERS"):  # fewer workers, more time (used when many checks run side by side)
        few = min(nw, int(os.environ["RV_WORKERS"]))
        budget, nw = budget * nw // few, few
    known = load_known(mod.PROPERTY)
    idxs = list(range(n)) if only is None else [only]
    if only is not None:
        nw = 1
    procs = []
    for w in range(nw):
        r, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for _, rr in procs:
                os.close(rr)
            try:
                worker(mod, idxs[w::nw], known, seed, tier, budget, cpu_limit, wr)
            finally:
                os._exit(3)
        os.close(wr)
        procs.append((pid, r))
    # collect with a hard wall limit
    import select

    deadline = time.monotonic() + budget + 6 * cpu_limit + 30
    bufs = {r: b"" for _, r in procs}
    open_fds = set(bufs)
    while open_fds and time.monotonic() < deadline:
        rd, _, _ = select.select(list(open_fds), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 16)
            if d:
                bufs[r] += d
            else:
                open_fds.discard(r)
    agg = {"done": 0, "counters": collections.Counter(), "distinct": collections.defaultdict(set),
           "samples": [], "violations": [], "known_hit": {}, "evaluations": 0, "errors": []}
    for pid, r in procs:
        if r in open_fds:
            os.kill(pid, signal.SIGKILL)
            agg["violations"].append({"key": "hang:worker", "msg": "worker did not answer (hung outside the per-case watchdog)", "case": None, "data": None})
        os.close(r)
        _, status = os.waitpid(pid, 0)
        try:
            res = json.loads(bufs[r])
        except ValueError:
            if r not in open_fds:
                agg["errors"].append(f"worker died with status {status}")
            continue
        agg["done"] += res["done"]
        agg["counters"].update(res["counters"])
        for k, v in res["distinct"].items():
            agg["distinct"][k].update(v)
        agg["samples"].extend(res["samples"])
        agg["violations"].extend(res["violations"])
        agg["known_hit"].update(res["known_hit"])
        agg["evaluations"] += res["evaluations"]
        if res["err"]:
            agg["errors"].append(res["err"])
    agg["wall"] = time.monotonic() - t0
    agg["planned"] = len(idxs)
    agg["known"] = known
    return agg


def write_evidence(mod, tier, seed, agg):
    distinct = {k: len(v) for k, v in agg["distinct"].items()}
    cov = {
        "evaluations": agg["evaluations"],
        "distinct_nontrivial": sum(distinct.values()),
        "rule": getattr(mod, "RULE", "distinct observed shapes per kind"),
        "cases_run": agg["done"],
        "cases_planned": agg["planned"],
        "distinct_by_kind": distinct,
        "events": dict(sorted(agg["counters"].items())),
        "samples": agg["samples"][:3],
    }
    ev = {
        "property": mod.PROPERTY,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "known_findings_observed": sorted(agg["known_hit"]),
        "wall_s": round(agg["wall"], 2),
        "violations": len(agg["violations"]),
    }
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{mod.PROPERTY}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    os.replace(tmp, os.path.join(d, f"{mod.PROPERTY}.json"))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case", type=int, help="run one generated case only")
    ap.add_argument("--replay", help="run the case recorded in a replay file")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier, seed, only = a.tier, a.seed, a.case
    if a.replay:
        rp = json.load(open(a.replay))
        seed, tier, only = rp["seed"], rp["tier"], rp["case"]
        print("replaying:", rp["msg"])
        if isinstance(only, str):
            only = None
    try:
        from . import target  # noqa: F401  (imports the code under test)
        mod = importlib.import_module(f"rv.checks.{a.property.lower()}")
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={a.property}: the code under test cannot be loaded")
        return 2
    agg = execute(mod, tier, seed, only)
    write_evidence(mod, tier, seed, agg)
    for k, what in sorted(agg["known"].items()):
        if k in agg["known_hit"]:
            print(f"KNOWN-FINDING: property={mod.PROPERTY} {what}")
    viol = agg["violations"]
    if viol:
        rdir = os.path.join(OUT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        v = viol[0]
        path = os.path.join(rdir, f"{mod.PROPERTY}.json")
        with open(path, "w") as f:
            json.dump({"property": mod.PROPERTY, "seed": seed, "tier": tier, "case": v["case"],
                       "key": v["key"], "msg": v["msg"], "data": v["data"],
                       "how": f"VERIF_SEED={seed} ./check {mod.PROPERTY} --tier {tier} --replay {path}",
                       "all": viol}, f, indent=1, default=repr)
        for v in viol[: (20 if a.v else 3)]:
            print(f"[{v['key']}] case={v['case']}: {v['msg'][:1500]}")
        print(f"VIOLATION property={mod.PROPERTY} replay={path}")
        return 1
    if agg["errors"]:
        print("INCONCLUSIVE: harness errors")
        for e in agg["errors"][:2]:
            print(e)
        return 2
    if only is None:
        need = getattr(mod, "MIN_EVENTS", {})
        c = dict(agg["counters"])
        c["evaluations"] = agg["evaluations"]
        low = {k: (c.get(k, 0), v) for k, v in need.items() if c.get(k, 0) < v}
        if low or agg["done"] == 0:
            print(f"INCONCLUSIVE property={mod.PROPERTY}: monitors observed too little: {low}")
            return 2
    print(f"OK property={mod.PROPERTY} tier={tier} seed={seed} cases={agg['done']} "
          f"evaluations={agg['evaluations']} distinct={sum(len(v) for v in agg['distinct'].values())} "
          f"wall={agg['wall']:.1f}s")
    return 0
