"""S01: sector layout and link-to-sector assignment (spec/Sectors.tla)."""
import math

from harness import world as w
from harness.core import attempt
from harness.nets import legal_link_status
from harness.world import ST, Link, Sector, Topology
from terragraph_planner.optimization import topology_preparation as tp

LEVEL = "model_checking"
RULE = "a distinct layout of neighbours around sites with a radio configuration"

RADIOS = [  # (scan range, sectors per node, nodes)
    (90.0, 1, 4), (60.0, 1, 6), (120.0, 1, 3), (70.0, 1, 4), (45.0, 2, 4), (30.0, 3, 2), (40.0, 3, 3), (30.0, 4, 3), (90.0, 1, 2), (50.0, 2, 1), (90.0, 1, 1), (72.0, 5, 1), (90.0, 4, 1), (20.0, 3, 4), (36.0, 2, 5),
]


def snap_sector(k, s, nm):
    return {"site": nm[s.site.site_id], "node": s.node_id, "pos": s.position_in_node, "az": float(s.ant_azimuth), "status": s.status_type.name}


def star(rng):
    """A centre with neighbours; bearings favour north and sector edges."""
    sites, links = {}, {}
    wdt, n, nodes = rng.choice(RADIOS)
    cw = rng.choice([30.0, 60.0, 90.0])
    k = rng.randint(1, 7)
    mode = rng.choice(["any", "north", "cluster"])
    base = rng.uniform(0, 360)
    statuses = rng.choice([("CANDIDATE",), ("CANDIDATE", "PROPOSED", "EXISTING"), ("CANDIDATE", "UNAVAILABLE", "UNREACHABLE", "PROPOSED")])
    sites["x"] = {"type": rng.choice(["DN", "DN", "POP"]), "pos": (0.0, 0.0), "status": rng.choice(statuses), "w": wdt, "n": n, "nodes": nodes}
    mixed = rng.random() < 0.4  # several makes of radio
    for i in range(k):
        if mixed:
            wdt, n, nodes = rng.choice(RADIOS)
        b = {"any": rng.uniform(0, 360), "north": rng.uniform(-50, 50), "cluster": base + rng.uniform(-40, 40)}[mode]
        d = rng.uniform(20, 300)
        ty = rng.choice(["DN", "DN", "POP", "CN"])
        sites[f"m{i}"] = {
            "type": ty, "pos": (d * math.sin(math.radians(b)), d * math.cos(math.radians(b))), "status": rng.choice(statuses),
            "w": cw if ty == "CN" else wdt, "n": 1 if ty == "CN" else n, "nodes": 1 if ty == "CN" or rng.random() < 0.7 else nodes,
        }
    names = list(sites)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            if a != "x" and rng.random() > 0.3:
                continue
            wl = rng.random() < 0.9
            st = legal_link_status(sites[a]["status"], sites[b]["status"], rng, rng.choice([["CANDIDATE"], None]))
            if st is None:
                continue
            for p, q in ((a, b), (b, a)):
                if sites[p]["type"] == "CN":
                    continue
                if rng.random() < 0.95:
                    links[f"{p}>{q}"] = {"tx": p, "rx": q, "wireless": wl, "status": st}
    return sites, links


def build(rng, sites, links, given):
    t = Topology()
    obj, nm, devs = {}, {}, {}
    for n, s in sites.items():
        sku = f"{s['type'][0]}_{s['w']}_{s['n']}_{s['nodes']}"
        d = devs.setdefault(sku, w.device(sku, "CN" if s["type"] == "CN" else "DN", nodes=s["nodes"], horizontal_scan_range=s["w"], number_sectors_per_node=s["n"]))
        o = w.site(s["type"], w.at(*s["pos"], 5.0), d, s["status"], n)
        t.add_site(o)
        obj[n], nm[o.site_id] = o, n
    secs = {}
    for n, o in obj.items():
        if rng.random() > given:
            continue
        s = sites[n]
        width, k = s["w"], s["n"]
        mx = min(s["nodes"], int(360 / (width * k) + 1e-9))
        start = rng.choice([0.0, 345.0, 10.0, rng.uniform(0, 360)])
        gap = 360.0 / mx
        for i in range(rng.randint(1, mx)):
            for j in range(k):
                az = (start + i * gap + (j - (k - 1) / 2) * width) % 360
                st = s["status"] if s["status"] not in ("PROPOSED", "EXISTING") else rng.choice(["CANDIDATE", "PROPOSED", s["status"]])
                x = Sector(o, i, j, az, status_type=ST[st])
                t.add_sector(x)
                secs.setdefault(n, []).append(x)
    lobj, preset = {}, {}
    for l, v in links.items():
        kw = {}
        r = f"{v['rx']}>{v['tx']}"
        if v["wireless"] and v["tx"] in secs and v["rx"] in secs:
            if r in preset and preset[r] is not None:
                kw = {"tx_sector": preset[r][1], "rx_sector": preset[r][0]}
            elif r not in preset and rng.random() < 0.5:
                near = lambda a, b: min(secs[a], key=lambda x: abs((x.ant_azimuth - _bearing(obj[a], obj[b]) + 180) % 360 - 180))  # noqa: E731
                kw = {"tx_sector": near(v["tx"], v["rx"]), "rx_sector": near(v["rx"], v["tx"])}
                if rng.random() < 0.15:
                    kw["tx_sector"] = rng.choice(secs[v["tx"]])
            preset[l] = (kw["tx_sector"], kw["rx_sector"]) if kw else None
        o = Link(obj[v["tx"]], obj[v["rx"]], status_type=ST[v["status"]], is_wireless=v["wireless"], **kw)
        t.add_link(o)
        lobj[l] = o
    return t, obj, nm, lobj


def _bearing(a, b):
    from terragraph_planner.common.geos import bearing_in_degrees
    return float(bearing_in_degrees(a.longitude, a.latitude, b.longitude, b.latitude))


NONE = {"none": {"site": "none", "node": 0, "pos": 0, "az": 0.0, "status": "none"}}


def setup_case(rng, given):
    sites, links = star(rng)
    if not links:
        return None
    st, v = attempt(build, rng, sites, links, given)
    if st != "ok":
        return {"kind": "crash", "what": "build", "text": f"{st}: {v}"}
    t, obj, nm, lobj = v
    sid = lambda x: x.sector_id if x is not None else "none"  # noqa: E731
    c = {
        "site": {n: {"type": s["type"], "lat": float(obj[n].latitude), "lon": float(obj[n].longitude), "alt": 5.0, "status": s["status"], "w": float(s["w"]), "n": s["n"], "nodes": s["nodes"]} for n, s in sites.items()},
        "link": {l: {**v2, "ts": sid(lobj[l].tx_sector), "rs": sid(lobj[l].rx_sector)} for l, v2 in links.items()},
        "given": {**NONE, **{k: snap_sector(k, s, nm) for k, s in t.sectors.items()}},
    }
    st, e = attempt(tp.setup_node_structure, t, seconds=60)
    if st == "OptimizerException":
        active = any(x["status"] in ("PROPOSED", "EXISTING") and x["wireless"] for x in links.values())
        # a refusal needs an active link or something given that could be wrong
        return {"kind": "refused", "may": active or any(x["ts"] != "none" for x in c["link"].values()), "text": e, **c}
    if st != "ok":
        return {"kind": "crash", "what": "setup_node_structure", "text": f"{st}: {e}", **c}
    return {
        "kind": "setup", **c, "sec": {**NONE, **{k: snap_sector(k, s, nm) for k, s in t.sectors.items()}},
        "out": {l: {"ts": sid(o.tx_sector), "rs": sid(o.rx_sector)} for l, o in lobj.items()},
    }


def check_case(rng):
    width, n, nodes = rng.choice(RADIOS)
    d = w.device("D", "DN", nodes=nodes, horizontal_scan_range=width, number_sectors_per_node=n)
    o = w.site("DN", w.at(0, 0, 5.0), d, "CANDIDATE", "x")
    mx = int(360 / (width * n) + 1e-9)
    k = rng.randint(1, mx)
    if rng.random() < 0.1:
        k = nodes + 1
    start = rng.choice([0.0, 1.0, 359.0, 340.0, rng.uniform(0, 360)])
    sep = rng.choice([width * n, 360.0 / max(k, 1), width * n + rng.uniform(0, 20), width * n - rng.choice([0.5, 5.0])])
    secs = []
    for i in range(k):
        for j in range(n):
            secs.append([i, j, (start + i * sep + j * width) % 360])
    flaw = rng.choice([None, None, "drop", "shift", "jitter", "dup", "reorder"])
    z = rng.choice(secs)
    if flaw == "drop" and len(secs) > 1:
        secs.remove(z)
    elif flaw == "shift":
        z[2] = (z[2] + rng.choice([0.2, 3.0, 20.0, -7.0])) % 360
    elif flaw == "jitter":
        z[2] = (z[2] + rng.choice([1e-4, -1e-4])) % 360
    elif flaw == "dup":
        z[1] = 0
    rng.shuffle(secs)
    if flaw == "reorder":  # positions need not follow the azimuth
        by = {}
        for s in secs:
            by.setdefault(s[0], []).append(s)
        for v in by.values():
            ps = [s[1] for s in v]
            rng.shuffle(ps)
            for s, p in zip(v, ps):
                s[1] = p
    objs = [Sector(o, i, j, az) for i, j, az in secs]
    c = {
        "kind": "check", "site": {"x": {"w": width, "n": n, "nodes": nodes}},
        "sec": {f"k{i}": {"site": "x", "node": s[0], "pos": s[1], "az": float(s[2])} for i, s in enumerate(secs)},
    }
    st, e = attempt(tp.validate_site_sectors, objs)
    if st not in ("ok", "OptimizerException"):
        return {**c, "kind": "crash", "what": "validate_site_sectors", "text": f"{st}: {e}"}
    return {**c, "accepted": st == "ok"}


def run(ctx):
    cases, keys = [], []
    for c in ctx.pmap(setup_case, [0.0 if i % 2 else 0.5 for i in range(ctx.pick(280, 3000))]):
        if c:
            cases.append(c)
            keys.append("setup")
            ctx.nontrivial(str(c))
    for i in range(ctx.pick(1500, 15000)):
        cases.append(check_case(ctx.sub(f"v{i}")))
        keys.append("layout")
    ctx.judge("Sectors", cases, keys, op="SectorFails")
    ctx.notes["kinds"] = {k: sum(1 for c in cases if c["kind"] == k) for k in ("setup", "refused", "check")}
    ctx.notes["accepted_layouts"] = sum(1 for c in cases if c.get("accepted"))
