"""P02: demand points and the sites that may serve them (spec/Demand.tla)."""
from harness import world as w
from harness.core import attempt
from harness.world import DemandSite, Topology
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.optimization.topology_demand import add_demand_to_topology

LEVEL = "model_checking"
RULE = "a distinct layout of sites and demand points with demand settings"

BASES = [(37.48, -122.15), (0.0, 10.0), (-18.1, 179.9995), (-18.1, -179.9995), (64.1, -21.9), (-33.9, 18.4)]


def layout(rng):
    """Sites with co-located, same-rooftop and near-by neighbours."""
    lat0, lon0 = rng.choice(BASES)
    sites, locs = [], []
    n = rng.randint(1, 7)
    span = rng.choice([60, 200, 400])
    tries = 0
    seen = set()
    while len(sites) < n and tries < 60:
        tries += 1
        kind = rng.choice(["POP", "DN", "DN", "CN", "CN", "CN"])
        roof = rng.random() < 0.5
        bld = rng.choice([-1, 0, 1, 2]) if roof else None
        if locs and rng.random() < 0.35:
            la, lo, al = rng.choice(locs)
            if rng.random() < 0.3:
                al = al + 3.0 if al is not None else 3.0
        else:
            p = w.at(rng.uniform(0, span), rng.uniform(0, span), None, lat0, 0.0)
            la, lo = p.latitude, lon0 + p.longitude
            if lo > 180:
                lo -= 360
            al = rng.choice([None, 5.0, 12.0])
        if (kind == "CN", la, lo, al) in seen:
            continue
        seen.add((kind == "CN", la, lo, al))
        locs.append((la, lo, al))
        sites.append((kind, la, lo, al, roof, bld, rng.choice([None, 1, 2, 5]) if kind == "CN" else None, rng.choice(["CANDIDATE", "EXISTING", "PROPOSED", "UNREACHABLE"])))
    return (lat0, lon0), span, sites


def case(rng):
    (lat0, lon0), span, sites = layout(rng)
    use = {"manual": rng.random() < 0.4, "uniform": rng.random() < 0.5, "cn": rng.random() < 0.5}
    if not any(use.values()):
        use[rng.choice(list(use))] = True
    spacing = rng.choice([40.0, 75.0, 130.0])
    radius = rng.choice([0.6, 0.9, 1.5, 2.2]) * spacing
    rate = rng.choice([0.025, 0.5, 1.0])
    t = Topology()
    ids, rec = {}, {}
    devs = {"CN": w.device("CN_A", "CN"), "DN": w.device("DN_A", "DN")}
    for k, (kind, la, lo, al, roof, bld, subs, st) in enumerate(sites):
        o = w.site(kind, w.GeoLocation(latitude=la, longitude=lo, altitude=al), devs["CN" if kind == "CN" else "DN"], st, f"s{k}", building=bld, subs=subs)
        t.add_site(o)
        ids[o.site_id] = f"s{k}"
        rec[f"s{k}"] = {"type": kind, "lat": float(la), "lon": float(lo), "alt": "none" if al is None else str(al), "roof": roof, "bld": -9 if bld is None else bld, "subs": (subs or 1) if kind == "CN" else 0}
    man = []
    if use["manual"] or rng.random() < 0.3:
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.15:
                k = rng.choice(sites)
                la, lo = k[1], k[2]
            else:
                p = w.at(rng.uniform(-50, span + 50), rng.uniform(-50, span + 50), None, lat0, 0.0)
                la, lo = p.latitude, lon0 + p.longitude
                lo = lo - 360 if lo > 180 else lo
            man.append({"lat": float(la), "lon": float(lo)})
            t.add_demand_site(DemandSite(location=w.GeoLocation(latitude=la, longitude=lo), demand=rng.choice([None, 9.0])))
    man = [dict(x) for x in {(m["lat"], m["lon"]): tuple(m.items()) for m in man}.values()]
    st, p = attempt(
        OptimizerParams, device_list=list(devs.values()), enable_cn_demand=use["cn"], enable_uniform_demand=use["uniform"],
        enable_manual_demand=use["manual"], demand_spacing=spacing, demand_connection_radius=radius, demand=rate,
    )
    assert st == "ok", p
    base = {"site": rec, "manual": man, "use": use, "spacing": spacing, "radius": radius, "rate": rate}
    st, v = attempt(add_demand_to_topology, t, p)
    if st == "OptimizerException" and "No demand" in str(v):
        cns = any(s[0] == "CN" for s in sites)
        if (use["cn"] and cns) or use["manual"]:
            return {**base, "kind": "crash", "what": "refused_with_demand", "text": v}
        return None if use["uniform"] else {**base, "kind": "refuse", "refused": True}
    if st != "ok":
        return {**base, "kind": "crash", "what": "add_demand_to_topology", "text": f"{st}: {v}"}
    out = [
        {"lat": float(d.latitude), "lon": float(d.longitude), "num": d.num_sites, "rate": float(d.demand), "sites": [ids.get(s.site_id, "?") for s in d.connected_sites]}
        for d in t.demand_sites.values()
    ]
    if not out:
        return {**base, "kind": "refuse", "refused": False}
    return {**base, "kind": "demand", "out": out}


def run(ctx):
    cases = []
    for i in range(ctx.pick(1200, 8000)):
        c = case(ctx.sub(f"c{i}"))
        if c:
            cases.append(c)
            ctx.nontrivial(str(c["site"]) + str(c["use"]))
    ctx.judge("Demand", cases, ["layout"] * len(cases))
    ctx.notes["demands"] = sum(len(c.get("out", [])) for c in cases)
