"""Running TLC: compilation of the overrides, batch judging, state graphs."""
import json
import math
import os
import re
import shutil
import subprocess
import tempfile
from enum import Enum

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(RuntimeError):
    """TLC itself failed: an error of the machinery, not a verdict."""


def enc(x):
    """Python value -> JSON value the Json module of TLC can read."""
    if x is None:
        return "none"
    if isinstance(x, bool):
        return x
    if isinstance(x, Enum):
        return x.name
    if isinstance(x, int):
        return x if abs(x) < 2**31 - 1 else str(x)
    if isinstance(x, str):
        return x
    if isinstance(x, float):
        return num(x)
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return [enc(v) for v in sorted(x, key=repr)]
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if hasattr(x, "item"):
        return enc(x.item())
    raise TypeError(f"cannot encode {x!r}")


def num(x):
    """A number as the string form module F understands."""
    if x is None:
        return "none"
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def scratch():
    return tempfile.mkdtemp(prefix="verif-tlc-")


def classes():
    """Directory with the compiled overrides (compiled when missing)."""
    out = os.path.join(ROOT, "build", "classes")
    src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java")))]
    cls = [os.path.join(out, os.path.basename(f)[:-5] + ".class") for f in src]
    if all(os.path.exists(c) and os.path.getmtime(c) >= os.path.getmtime(f) for c, f in zip(cls, src)):
        return out
    os.makedirs(out, exist_ok=True)
    tmp = scratch()
    try:
        subprocess.run(
            ["javac", "-cp", JAR, "-d", tmp, *src],
            check=True,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
        )
        for f in os.listdir(tmp):
            shutil.copy(os.path.join(tmp, f), out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def run_tlc(module_text, name, cfg, env=None, workers=8, heap="6g", extra=(), timeout=3600, props=()):
    """Run TLC on a generated root module that may EXTEND anything in spec/."""
    d = scratch()
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        if module_text is not None:
            with open(os.path.join(d, name + ".tla"), "w") as f:
                f.write(module_text)
        with open(os.path.join(d, name + ".cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = [
            "java",
            "-XX:+UseParallelGC",
            "-Xss64m",
            "-Xmx" + heap,
            *props,
            "-cp",
            os.pathsep.join([classes(), JAR, CM]),
            "tlc2.TLC",
            "-workers",
            str(workers),
            "-metadir",
            os.path.join(d, "meta"),
            "-noGenerateSpecTE",
            "-config",
            name + ".cfg",
            *extra,
            name + ".tla",
        ]
        p = subprocess.run(
            cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout
        )
        return p.returncode, p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = STATS.findall(out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


JUDGE = """---- MODULE Judge ----
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
INSTANCE %(module)s
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
N == Len(Cases)
CH == %(chunks)d
VARIABLES c, i
Init == c = 0 /\\ i = 0
Next == \\/ c = 0 /\\ c' \\in 1..CH /\\ i' = 0
        \\/ c > 0 /\\ i = 0 /\\ c' = c /\\ i' \\in {k \\in 1..N : k %% CH = c - 1}
Judge == i > 0 => LET f == %(op)s(Cases[i]) IN PrintT("VERDICT " \\o ToJson([i |-> i, f |-> f]))
====
"""


def judge(module, cases, timeout=3600, heap="6g", op="Fails"):
    """Evaluate `Fails` of spec/<module>.tla on every case.

    Returns (verdicts, states, transitions) with verdicts[k] the set of the
    names of the clauses that case k breaks.
    """
    res, states, trans, left = {}, 0, 0, list(range(len(cases)))
    for _ in range(4):
        got, lost, dist, gen = _judge(module, [cases[k] for k in left], timeout, heap, op)
        states, trans = states + dist, trans + gen
        res.update({left[k]: v for k, v in got.items()})
        if lost is not None:
            # the specification has no meaning for what was recorded
            res[left[lost]] = ["outside_the_specification"]
        left = [k for k in left if k not in res]
        if not left:
            break
    return [res.get(k, []) for k in range(len(cases))], states, trans


def _judge(module, cases, timeout, heap, op):
    if not cases:
        return {}, None, 0, 0
    d = scratch()
    path = os.path.join(d, "cases.ndjson")
    try:
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps(enc(c)) + "\n")
        rc, out = run_tlc(
            JUDGE % {"module": module, "op": op, "chunks": min(64, max(8, len(cases)))},
            "Judge",
            "INIT Init\nNEXT Next\nINVARIANT Judge\nCHECK_DEADLOCK FALSE\n",
            env={"VERIF_CASES": path},
            timeout=timeout,
            heap=heap,
        )
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = {}
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"VERDICT '):
            v = json.loads(json.loads(line)[len("VERDICT "):])
            res[v["i"]] = sorted(v["f"])
    gen, dist = stats(out)
    where = re.findall(r"^/\\ i = (\d+)$", out, re.M)
    if "Evaluating invariant Judge failed" in out and not re.search("StackOverflow|OutOfMemory", out) and where and int(where[-1]) > 0:
        return {k - 1: v for k, v in res.items()}, int(where[-1]) - 1, dist, gen
    if rc != 0 or len(res) != len(cases):
        keep = [
            l
            for l in out.splitlines()
            if "VERDICT" not in l and "Loading" not in l and "Parsing" not in l
        ]
        done = set(res)
        missing = [k for k in range(1, len(cases) + 1) if k not in done][:3]
        raise TlcError(
            f"TLC rc={rc}, {len(res)}/{len(cases)} verdicts, unjudged {missing}\n" + "\n".join(keep[-80:])
        )
    return {k - 1: v for k, v in res.items()}, None, dist, gen


def edges(module_text, name, cfg, workers=1, timeout=3600, heap="6g", extra=()):
    """Run a model whose actions print `EDGE <json>`; return the parsed lines."""
    rc, out = run_tlc(module_text, name, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra)
    res = []
    rest = []
    for line in out.splitlines():
        s = line.strip()
        if s.startswith('"EDGE '):
            res.append(json.loads(json.loads(s)[len("EDGE "):]))
        elif "Loading" not in s and "Parsing" not in s:
            rest.append(s)
    gen, dist = stats(out)
    return rc, res, dist, gen, "\n".join(rest[-60:])


def enc_json(x):
    """Plain-JSON form (for evidence files): like enc but keeps floats."""
    if isinstance(x, dict):
        return {str(k): enc_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc_json(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return [enc_json(v) for v in sorted(x, key=repr)]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else num(x)
    return enc(x)
