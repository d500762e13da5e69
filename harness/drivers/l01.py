"""L01: line-of-sight verdicts (spec/Sight.tla) over generated surfaces, sites and zones."""
import math

import numpy as np
from shapely.geometry import Polygon

from harness import world as w
from harness.core import attempt
from terragraph_planner.common.structs import CandidateLOS, UTMBoundingBox
from terragraph_planner.common.topology_models.site import LOSSite
from terragraph_planner.los.core import compute_los
from terragraph_planner.los.elevation import Elevation
from terragraph_planner.los.helper import compute_los_batch

LEVEL = "model_checking"
RULE = "a distinct scene (surface, sites, zones, limits) with at least one pair within range"
ASSUMPTIONS = [
    "surfaces are north-up grids of at most 20 x 20 columns; a column counts with its centre",
    "within rounding (1e-6) of a limit, of the rim of the zone or of the threshold either verdict is accepted; "
    "for sloped ellipsoidal links the verdict within 0.02 of the threshold is free",
]


def surface(rng, n, mode, R, res):
    z = np.zeros((n, n), dtype=np.float32)
    for r in range(n):
        for k in range(n):
            if mode == "low":
                z[r, k] = -50.0 + rng.uniform(0, 3)
            elif mode == "graze":
                z[r, k] = 10.0 - rng.uniform(0.0, 2.5) * R
            else:
                z[r, k] = rng.uniform(0.0, 10.5)
    for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
        r, k = rng.randrange(n), rng.randrange(n)
        z[r, k] = rng.choice([10.0 + rng.uniform(-2, 2) * R, rng.uniform(10, 40), 9.99])
    return z


def zone(rng, x0, y0, ext):
    cx, cy = x0 + rng.uniform(0, ext), y0 - rng.uniform(0, ext)
    m, rad = rng.randint(3, 5), rng.uniform(0.5, ext / 5)
    ang = sorted(rng.uniform(0, 2 * math.pi) for _ in range(m))
    return [(cx + rad * math.cos(a) * rng.uniform(0.5, 1), cy + rad * math.sin(a) * rng.uniform(0.5, 1)) for a in ang]


def scene(rng):
    x0, y0 = rng.choice([(500000.0, 4000000.0), (0.0, 0.0), (165000.5, 9100000.25), (833000.0, 10.0)])
    res = rng.choice([1.0, 1.0, 2.0, 0.5])
    n = rng.randint(8, 18)
    ext = res * (n - 1)
    ell = rng.random() < 0.5
    radius = rng.choice([1.0, 1.0, 0.6, 2.0])
    freq = rng.choice([60000.0, 60000.0, 5000.0, 1000.0])
    R = radius if not ell else 8.65725790883 * math.sqrt(ext / 2 / freq)
    flat = rng.random() < 0.4
    sites = []
    for _ in range(rng.randint(3, 6)):
        if rng.random() < 0.2:
            x, y = x0 + res * rng.randrange(n), y0 - res * rng.randrange(n)
        else:
            x, y = x0 + rng.uniform(0, ext), y0 - rng.uniform(0, ext)
        alt = 10.0 if flat else 10.0 + rng.uniform(-1, 1) * rng.choice([0.5, 2.0, 6.0])
        sites.append([x, y, alt, rng.random() < 0.6, rng.choice([-1, -1, 3, 4])])
    if rng.random() < 0.4:  # twins at one place, and a pair one above the other
        sites.append(list(rng.choice(sites)))
        sites[-1][3:] = [rng.random() < 0.5, rng.choice([-1, 3, 4])]
        if rng.random() < 0.4:
            sites[-1][2] += 3.0
    surf = None
    if rng.random() < 0.88:
        z = surface(rng, n, rng.choice(["low", "low", "graze", "random"]), R, res)
        surf = [x0, y0, res, rng.choice([res, res, res * 1.5]), z]
        for k, r in under(sites, surf):  # the column a site stands on is well below it
            z[r, k] = -60.0
    elif rng.random() < 0.5:
        for s in sites:
            if rng.random() < 0.5:
                s[2] = None
    zones = [zone(rng, x0, y0, ext) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    idx = [(a, b) for a in range(len(sites)) for b in range(len(sites)) if a != b]
    rng.shuffle(idx)
    links, seen = [], set()
    for a, b in idx:
        both = rng.random() < 0.6
        if (a, b) in seen:
            continue
        links.append((a, b, both))
        seen |= {(a, b), (b, a)}
    links = links[: rng.randint(3, 9)]
    d = sorted(math.dist(sites[a][:2], sites[b][:2]) for a, b, _ in links)
    lo = rng.choice([0.1, 0.1, max(0.1, d[0] * 1.01), max(0.1, d[0] * 1.03)])
    hi = max(lo * 1.1, rng.choice([10 * ext, 10 * ext, d[-1] * 0.99, d[-1] * 0.97, d[len(d) // 2] * 1.5]))
    conf = {"max": hi, "min": lo, "el": rng.choice([25.0, 25.0, 89.0, 5.0, 0.0, 90.0]),
            "thr": rng.choice([1.0, 0.6, 0.8, 0.3, 0.0, 0.95]), "ell": ell, "radius": radius, "freq": freq}
    return sites, links, zones, surf, conf


def under(sites, surf):
    """Columns exactly below a site: on the rim of its zones, so rounding decides."""
    out = set()
    for s in sites:
        k, r = (s[0] - surf[0]) / surf[2], (surf[1] - s[1]) / surf[3]
        if abs(k - round(k)) < 1e-3 and abs(r - round(r)) < 1e-3 and 0 <= round(r) < surf[4].shape[0] and 0 <= round(k) < surf[4].shape[1]:
            out.add((round(k), round(r)))
    return out


def elevation(surf):
    x0, y0, dx, dy, z = surf
    box = UTMBoundingBox(min_utm_x=math.floor(x0 - 9), min_utm_y=math.floor(y0 - dy * z.shape[0] - 9), max_utm_x=math.ceil(x0 + dx * z.shape[1] + 9), max_utm_y=math.ceil(y0 + 9))
    return box


def drive(sites, links, zones, surf, conf):
    ls = [LOSSite(x, y, alt, (w.LocationType.ROOFTOP if roof else w.LocationType.STREET_LEVEL).value, bld) for x, y, alt, roof, bld in sites]
    wkts = [Polygon(z).wkt for z in zones]
    geo = [None] * 7
    if surf is not None:
        x0, y0, dx, dy, z = surf
        geo = [z, elevation(surf), dx, dy, 32610, x0, y0]
    return attempt(
        compute_los_batch, [CandidateLOS(*x) for x in links], ls, wkts, *geo,
        conf["max"], conf["min"], conf["el"], conf["thr"], conf["ell"], conf["radius"], conf["freq"],
    )


def record(sites, links, zones, surf, conf):
    poly = [list(Polygon(z).exterior.coords)[:-1] for z in zones]
    wk = [[{"x": float(repr(x)), "y": float(repr(y))} for x, y in p] for p in poly]
    return {
        "sites": [{"x": s[0], "y": s[1], "alt": s[2], "roof": s[3], "bld": s[4]} for s in sites],
        "links": [[a + 1, b + 1, both] for a, b, both in links],
        "zones": wk,
        "surf": [] if surf is None else [{"x0": surf[0], "y0": surf[1], "dx": surf[2], "dy": surf[3], "z": [[float(v) for v in r] for r in surf[4]]}],
        **{k: (v if isinstance(v, bool) else float(v)) for k, v in conf.items()},
    }


def got(v):
    return [[a + 1, b + 1, float(x)] for a, b, x in v]


def case(rng, _k):
    sites, links, zones, surf, conf = scene(rng)
    st, v = drive(sites, links, zones, surf, conf)
    rec = record(sites, links, zones, surf, conf)
    if st != "ok":
        return [{"kind": "crash", "text": f"{st}: {v}", **rec}]
    out = [{"kind": "batch", "got": got(v), **rec}]
    # the same pairs asked from the other end, in another order
    both = [(a, b, True) for a, b, _ in links]
    back = [(b, a, True) for a, b, _ in links]
    rng.shuffle(back)
    s1, v1 = drive(sites, both, zones, surf, conf)
    s2, v2 = drive(sites, back, zones, surf, conf)
    if s1 != "ok" or s2 != "ok":
        out.append({"kind": "crash", "text": f"{s1} {v1} {s2} {v2}"[:500]})
    else:
        out.append({"kind": "same", "what": "depends_on_direction", "one": got(v1), "two": got(v2)})
    if surf is not None:  # something grows
        z = surf[4].copy()
        for _ in range(rng.randint(1, 6)):
            r, k = rng.randrange(z.shape[0]), rng.randrange(z.shape[1])
            if (k, r) in under(sites, surf):
                continue
            z[r, k] += rng.choice([0.1, 0.5, 2.0, 20.0])
        s2, v2 = drive(sites, links, zones, surf[:4] + [z], conf)
        if s2 != "ok":
            out.append({"kind": "crash", "text": f"{s2} {v2}"[:500]})
        else:
            out.append({"kind": "grow", "one": got(v), "two": got(v2), "slack": 0.02 if conf["ell"] else 1e-9})
    return out


def pool_case(ctx, rng, tag):
    """More candidate links than one batch, through worker processes."""
    n = 48
    sites = [
        w.site("DN", w.at(rng.uniform(-400, 400), rng.uniform(-400, 400), 10.0 + rng.uniform(-3, 3)), w.device("DN_A", "DN"), name=f"s{k}", building=None)
        for k in range(n)
    ]
    links = [CandidateLOS(a, b, rng.random() < 0.5) for a in range(n) for b in range(a + 1, n)]
    zones = [Polygon([(sites[0].utm_x + 50, sites[0].utm_y + 50), (sites[0].utm_x + 90, sites[0].utm_y + 60), (sites[0].utm_x + 60, sites[0].utm_y + 99)])]
    conf = {"max": 300, "min": 20, "el": 25.0, "thr": 0.6, "ell": False, "radius": 1.0, "freq": 60000.0}
    args = (300, 20, 25.0, 0.6, False, 1.0, 60000.0)
    st, v = attempt(compute_los, sites, links, None, zones, *args, 3, seconds=120)
    raw = [[s.utm_x, s.utm_y, s.altitude, False, -1] for s in sites]
    rec = record(raw, links, [list(z.exterior.coords)[:-1] for z in zones], None, conf)
    if st != "ok":
        return [{"kind": "crash", "text": f"{st}: {v}"}]
    sr = [LOSSite(s.utm_x, s.utm_y, s.altitude, s.location_type.value, s.building_id) for s in sites]
    one = compute_los_batch(links, sr, [z.wkt for z in zones], *([None] * 7), *args)
    ctx.notes[f"pool_{tag}"] = {"links": len(links), "accepted": len(v)}
    part = sorted(rng.sample(range(len(links)), 150))
    keep = {frozenset(links[k][:2]) for k in part}
    sel = [x for x in v if frozenset(x[:2]) in keep]
    return [
        {"kind": "same", "what": "batches_change_the_verdicts", "one": got(one), "two": got(v)},
        {"kind": "batch", "got": got(sel), **{**rec, "links": [rec["links"][k] for k in part]}},
    ]


def run(ctx):
    n = ctx.pick(900, 9000)
    cases = [c for cs in ctx.pmap(case, range(n)) for c in cs]
    kinds = {}
    for c in cases:
        kinds[c["kind"]] = kinds.get(c["kind"], 0) + 1
        if c["kind"] == "batch":
            ctx.nontrivial({k: v for k, v in c.items() if k != "got"})
    vals = [float(g[2]) for c in cases if c["kind"] == "batch" for g in c["got"]]
    ctx.notes["confidences"] = {"accepted": len(vals), "partial": sum(1 for v in vals if v < 1), "pairs": sum(len(c["links"]) for c in cases if c["kind"] == "batch")}
    cases += pool_case(ctx, ctx.sub("pool"), "a")
    ctx.judge("Sight", cases, [f"{c['kind']}#{k}" for k, c in enumerate(cases)], op="SightFails")
