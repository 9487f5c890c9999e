"""Runs a property's cases in worker processes, has TLC judge the recorded traces, reports."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang("no answer within the time limit")


class limit:
    """Bounds one call into the code under test."""

    def __init__(self, seconds=20):
        self.s = seconds

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.s)

    def __exit__(self, *_):
        signal.alarm(0)


def rng(prop, seed, chunk):
    return random.Random("%s-%s-%s" % (prop, seed, chunk))


def h(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


class Result:
    """What one chunk (or the whole run) covered and found."""

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []     # {"what":..., "case":...}
        self.known = {}          # finding id -> text
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}

    def merge(self, o):
        self.evaluations += o.evaluations
        self.distinct |= o.distinct
        self.samples = (self.samples + o.samples)[:6]
        self.violations += o.violations
        self.known.update(o.known)
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v if isinstance(v, (int, float)) else v


def _work(a):
    mod, fn, args = a
    try:
        import importlib
        m = importlib.import_module(mod)
        return getattr(m, fn)(*args)
    except BaseException as x:
        text = traceback.format_exc()
        frames = [f.filename for f in traceback.extract_tb(x.__traceback__)]
        if isinstance(x, Hang) or frames and (REPO + os.sep + "syncanysql" in frames[-1] or any(REPO + os.sep + "syncanysql" in f for f in frames) and "/site-packages/syncany/" in frames[-1]) \
                or isinstance(x, (ImportError, SyntaxError)) and "syncanysql" in text:
            r = Result()     # the code under test broke where no case expects it: not a failure of the machinery
            r.violations.append({"what": "the code under test raised outside any query: " + text.strip().splitlines()[-1], "case": {"traceback": text[-3000:]}})
            return r
        return "MACHINERY " + text


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def parallel(tasks, jobs=None):
    """tasks: [(module, function, args)], each returning a Result."""
    total = Result()
    if not tasks:
        return total
    ctx = mp.get_context("spawn")
    errors = []
    with ctx.Pool(min(jobs or JOBS, len(tasks)), _init) as pool:
        for r in pool.imap_unordered(_work, tasks):
            if isinstance(r, str):
                errors.append(r)
            else:
                total.merge(r)
    if errors:
        sys.stderr.write("\n".join(errors[:3]))
        if not total.violations:
            sys.stderr.write("check machinery failed (%d of %d chunks)\n" % (len(errors), len(tasks)))
            sys.exit(2)
    return total


def report(prop, tier, seed, level, total, rule, t0, assumptions=(), extra=None, exhaustive=None):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    shown = 0
    for i, v in enumerate(total.violations[:5]):
        path = os.path.join("evidence", "replay", "%s-%d.json" % (prop, i + 1))
        with open(os.path.join(ROOT, path), "w") as f:
            json.dump(v, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + str(v.get("what"))[:400])
        shown += 1
    for k in sorted(total.known):
        print("KNOWN-FINDING: property=%s %s" % (prop, total.known[k]))
    cov = {"evaluations": total.evaluations, "distinct_nontrivial": len(total.distinct), "rule": rule,
           "samples": total.samples[:6]}
    if total.states:
        cov["states"] = total.states
    if total.transitions:
        cov["transitions"] = total.transitions
    if total.traces:
        cov["traces_validated_against_impl"] = total.traces
    if exhaustive is not None:
        cov["exhaustive"] = exhaustive
    cov.update(total.extra)
    cov.update(extra or {})
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                   "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 1),
                   "violations": len(total.violations)}, f, indent=1, default=str)
    print("%s %s: %d evaluations, %d distinct, %d violations, %.1fs" % (
        prop, tier, total.evaluations, len(total.distinct), len(total.violations), time.time() - t0))
    return 1 if total.violations else 0
