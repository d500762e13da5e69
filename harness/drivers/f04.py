"""F04: antenna and scan pattern files (spec/Patterns.tla).

Pattern files are written in every layout the formats allow, with and without
faults, read through the device settings, and the gains of a radio that uses
them are compared with the numbers in the file.
"""
import os
import tempfile

from harness import world as w  # noqa: F401
from harness.core import attempt
from terragraph_planner.common.configuration.configs import SectorParams
from terragraph_planner.common.rf.link_budget_calculator import extract_gain_from_radio_pattern

LEVEL = "model_checking"
RULE = "a distinct pattern file"
ASSUMPTIONS = ["sections list the degrees from 0 upwards, as Planet's format does", "antennas of one file have different names"]


def text(v):
    return f"{v:.4f}".rstrip("0").rstrip(".") or "0"


def losses(rng):
    a, b = rng.uniform(0, 2), rng.uniform(0, 0.9)
    top = rng.choice([0.0, 0.0, -1.5])
    return [round(top + (a * k if k <= 180 else b * (360 - k)) * rng.choice([1, 1, 1.1]), 4) for k in range(360)]


FAULTS = ["none"] * 6 + ["short", "short_last", "long", "word", "blank", "no_hor", "no_ver", "no_name"]


def antenna(rng, k):
    sep = rng.choice(["\t", ",", " ", ", ", "\t"])
    n = rng.choice([1, 1, 2, 3])
    names = ["Alpha-60", "  beta_1", "GAMMA", "d4 two" if sep != " " else "d4_two"]
    rng.shuffle(names)
    fault = rng.choice(FAULTS)
    bad = rng.randrange(n)
    lines, blocks = [], []
    up = rng.choice([str.upper, str.upper, str.lower, str.title])
    for i in range(n):
        h, v = [[x] for x in losses(rng)], [[x] for x in losses(rng)]
        b = {"name": names[i], "key": names[i].strip().casefold(), "hor": [h], "ver": [v]}
        blank = False
        if i == bad:
            s = rng.choice([h, v])
            if fault == "short":
                del s[rng.randrange(1, 360) :]
            elif fault == "short_last":
                del v[359]
            elif fault == "long":
                s.append([1.0])
            elif fault in ("word", "blank"):
                s[rng.randrange(360)] = []
                blank = fault == "blank"
            elif fault == "no_hor":
                b["hor"] = []
            elif fault == "no_ver":
                b["ver"] = []
        if not (i == bad and fault == "no_name"):
            lines.append([up("name"), names[i] if sep != " " else names[i].strip()])
            blocks.append(b)
        for a, x in (("make", "x"), ("frequency", "60000"), ("gain", "20dBi"), ("tilt", "MECHANICAL")):
            if rng.random() < 0.8:
                lines.append([up(a), x])
        for word, rows in (("horizontal", b["hor"]), ("vertical", b["ver"])):
            if sep != " " and rng.random() < 0.15:
                lines.append(["", ""])
            if rows:
                lines.append([up(word), "360"])
                lines += [[str(d), text(x[0]) if x else ("" if blank else "n/k")] for d, x in enumerate(rows[0])]
    if fault == "no_name" and blocks:
        blocks[0]["hor"] = []  # sections without a name: refuse or not, never crash
        return antenna(rng, k)
    if fault == "blank" and sep == " ":
        return antenna(rng, k)
    body = "\n".join(sep.join(q) for q in lines) + rng.choice(["", "\n", "\n\n"])
    p = tempfile.mkstemp(suffix=rng.choice([".txt", ".pln", ".csv"]))[1]
    try:
        with open(p, "w") as f:
            f.write(body)
        r = attempt(SectorParams, antenna_pattern_file_path=p)
    finally:
        os.unlink(p)
    got, asks = [], []
    if r[0] == "ok":
        t = r[1].antenna_pattern_data
        got = [{"name": a, "hor": [float(x) for x in q[0]], "ver": [float(x) for x in q[1]]} for a, q in t.items()]
        asks = ask(rng, t)
    return {"kind": "antenna", "fault": fault, "blocks": blocks, "res": r[0], "got": got, "asks": asks}


def ask(rng, t):
    out = []
    for _ in range(6):
        az = rng.choice([0.0, 180.0, -179.7, 359.0 - 360, -0.4, 12.5, rng.uniform(-180, 180)])
        el = rng.choice([0.0, 89.6, -90.0, -0.5, rng.uniform(-90, 90)])
        base, div = rng.choice([0.0, 28.5]), rng.choice([0.0, 3.0])
        g = attempt(extract_gain_from_radio_pattern, base, div, t, az, el)
        out.append({"az": az, "el": el, "base": base, "div": div, "gain": float(g[1]) if g[0] == "ok" else "nan"})
    return out


def scanfile(rng, k):
    step = rng.choice([0.5, 1, 5, 15])
    az = [a * step for a in range(-rng.randint(1, 6), rng.randint(1, 6))]
    el = [e * step for e in range(-rng.randint(0, 3), rng.randint(1, 4))]
    if rng.random() < 0.2:
        rng.shuffle(az)
        rng.shuffle(el)
    rows = [{"az": [a], "row": [{"el": [e], "gain": [rng.choice([0.0, round(rng.uniform(-3, 28), 3)])]} for e in el]} for a in az]
    fault = rng.choice(["none"] * 4 + ["word", "blank", "head", "angle"])
    word = rng.choice(["x", "n/k", "--"])
    i, j = rng.randrange(len(az)), rng.randrange(len(el))
    if fault in ("word", "blank"):
        rows[i]["row"][j]["gain"] = []
    elif fault == "head":
        for q in rows:
            q["row"][j]["el"] = []
    elif fault == "angle":
        rows[i]["az"] = []
    corner = rng.choice(["Channel4", "", "az/el"])
    sep = rng.choice([",", ",", ", "])
    out = [sep.join([corner] + [text(q["el"][0]) if q["el"] else word for q in rows[0]["row"]])]
    for q in rows:
        out.append(sep.join([text(q["az"][0]) if q["az"] else word] + [text(x["gain"][0]) if x["gain"] else ("" if fault == "blank" else word) for x in q["row"]]))
    p = tempfile.mkstemp(suffix=".csv")[1]
    try:
        with open(p, "w") as f:
            f.write("\n".join(out) + rng.choice(["", "\n"]))
        r = attempt(SectorParams, scan_pattern_file_path=p)
    finally:
        os.unlink(p)
    got, asks = [], []
    if r[0] == "ok":
        t = r[1].scan_pattern_data
        got = [{"az": float(a), "row": [{"el": float(e), "gain": float(x)} for e, x in q.items()]} for a, q in t.items()]
        asks = ask(rng, t)
    return {"kind": "scan", "fault": fault, "rows": rows, "res": r[0], "got": got, "asks": asks}


def run(ctx):
    cases, keys = [], []
    for fn, name, n in ((antenna, "antenna", ctx.pick(240, 2400)), (scanfile, "scan", ctx.pick(1200, 12000))):
        for k, c in enumerate(ctx.pmap(fn, range(n))):
            cases.append(c)
            keys.append(f"{name}#{k}")
            ctx.nontrivial(f"{name}:{c['fault']}:{c.get('rows', c.get('blocks'))}"[:300])
    ctx.judge("Patterns", cases, keys, op="PatternFails")
