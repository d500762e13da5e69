"""Check entry point: tiers, verdicts, known findings, evidence."""
import importlib
import json
import multiprocessing
import os
import random
import re
import signal
import sys
import time
import traceback
from contextlib import contextmanager

from harness import tlc

ROOT = tlc.ROOT
KNOWN = os.path.join(ROOT, "known_findings.jsonl")


class CaseTimeout(BaseException):
    pass


@contextmanager
def limit(seconds):
    """Bound one call into the code under test."""

    def on(_s, _f):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def attempt(fn, *a, seconds=20, **k):
    """Call the code under test: ("ok", value) | (exception class name, text).

    Exceptions raised by the planner on purpose are PlannerException
    subclasses; anything else is a crash.
    """
    try:
        with limit(seconds):
            return "ok", fn(*a, **k)
    except CaseTimeout:
        return "timeout", f"no result within {seconds}s"
    except RecursionError as e:
        return "RecursionError", str(e)[:200]
    except Exception as e:  # noqa: B902
        return type(e).__name__, (str(e) or traceback.format_exc(limit=-1))[:300]


_PMAP = None


def _pmap_one(k):
    fn, ctx, items = _PMAP
    return fn(ctx.sub(f"{fn.__name__}{k}"), items[k])


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.rng = random.Random(f"{prop}:{seed}")
        self.failures = []  # (key, clauses, case)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.notes = {}
        self.t0 = time.time()
        self.level = "model_checking"
        self.rule = ""
        self.assumptions = []

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def sub(self, tag):
        return random.Random(f"{self.prop}:{tag}:{self.seed}")

    def pmap(self, fn, items, procs=8):
        """[fn(rng, item)] over worker processes; rng depends on the seed only."""
        items = list(items)
        global _PMAP
        _PMAP = (fn, self, items)
        chunk = max(1, min(16, len(items) // (4 * procs) or 1))
        with multiprocessing.get_context("fork").Pool(procs) as pool:
            return pool.map(_pmap_one, range(len(items)), chunksize=chunk)

    def elapsed(self):
        return time.time() - self.t0

    def fail(self, key, clauses, case):
        self.failures.append((key, list(clauses), case))

    def model(self, states, transitions, name=None):
        self.states += states
        self.transitions += transitions
        if name:
            self.notes[name] = {"states": states, "transitions": transitions}

    def judge(self, module, cases, keys=None, **kw):
        """Judge recorded behaviours against spec/<module>.tla."""
        t = time.time()
        verdicts, st, tr = tlc.judge(module, cases, **kw)
        self.model(st, tr)
        n = self.notes.setdefault("judged", {})
        e = n.setdefault(module, {"cases": 0, "seconds": 0})
        e["cases"] += len(cases)
        e["seconds"] = round(e["seconds"] + time.time() - t, 1)
        self.traces += len(cases)
        self.evals += len(cases)
        for k, (c, v) in enumerate(zip(cases, verdicts)):
            key = keys[k] if keys else c.get("key", f"{module}#{k}")
            if v:
                self.fail(key, v, c)
        for c in cases[:2]:
            if len(self.samples) < 6:
                self.samples.append(c)
        return verdicts

    def nontrivial(self, what):
        self.distinct.add(what if isinstance(what, (str, int, tuple)) else json.dumps(tlc.enc(what), sort_keys=True))


def load_known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            e = json.loads(line)
            if e.get("property") == prop and e.get("status", "open") == "open":
                out[(e["key"], e["clause"])] = e["what"]
    return out


def evidence(ctx, nviol):
    cov = {
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces,
        "evaluations": ctx.evals,
        "distinct_nontrivial": len(ctx.distinct),
        "rule": ctx.rule or "see DESIGN.md",
        "samples": [trim(s) for s in ctx.samples[:4]] or ["none"],
        "detail": ctx.notes,
    }
    ev = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": ctx.level,
        "coverage": cov,
        "assumptions": ctx.assumptions,
        "wall_s": round(ctx.elapsed(), 2),
        "violations": nviol,
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{ctx.prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(tlc.enc_json(ev), f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, ctx.prop + ".json"))


def trim(x, depth=0):
    s = json.dumps(tlc.enc(x))
    if len(s) <= 2500:
        return tlc.enc(x)
    return {"truncated": s[:2500]}


def main(argv):
    if len(argv) < 2:
        print("usage: check.py PROPERTY quick|thorough", file=sys.stderr)
        return 2
    prop, tier = argv[0], argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    driver = importlib.import_module("harness.drivers." + prop.lower())
    ctx.level = getattr(driver, "LEVEL", "model_checking")
    ctx.rule = getattr(driver, "RULE", "")
    ctx.assumptions = list(getattr(driver, "ASSUMPTIONS", []))
    try:
        driver.run(ctx)
    except tlc.TlcError:
        raise
    except Exception as e:  # noqa: B902
        # a crash inside the planner that no driver expected is a broken
        # behaviour (also in a worker process, whose trace is in the text), and
        # so is an answer a driver cannot make sense of; a changed interface or
        # a failure of the machinery is not
        text = traceback.format_exc()
        repo = os.environ.get("VERIF_REPO", "/repo")
        strange = isinstance(e, (LookupError, ValueError, ArithmeticError, AttributeError, TypeError, AssertionError)) and not re.search(r"module '|argument|RuntimeError", str(e))
        if f'File "{repo}/terragraph_planner/' not in text and not strange:
            raise
        ctx.fail("unexpected_exception", [type(e).__name__], {"traceback": text[-3000:]})

    known = load_known(prop)
    seen_known = {}
    viol = []
    for key, clauses, case in ctx.failures:
        fresh = []
        for cl in clauses:
            if (key, cl) in known:
                seen_known[(key, cl)] = known[(key, cl)]
            else:
                fresh.append(cl)
        if fresh:
            viol.append((key, fresh, case))
    for (key, cl), what in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    evidence(ctx, len(viol))
    if not viol:
        print(
            f"OK property={prop} tier={tier} seed={seed} states={ctx.states} "
            f"traces={ctx.traces} wall={ctx.elapsed():.1f}s"
        )
        return 0
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    for n, (key, fresh, case) in enumerate(viol[:5]):
        path = os.path.join(d, f"{prop}-{tier}-{seed}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "key": key, "broken": fresh, "case": tlc.enc(case)}, f, indent=1)
        print(f"  broken: {fresh} in {key}")
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{len(viol)} violating behaviours")
    return 1
