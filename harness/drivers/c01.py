"""C01: counts, cost and POP capacity (spec/Count.tla) on generated networks."""
from harness import world as w
from harness.core import attempt
from harness.nets import legal_link_status
from harness.world import ST, DemandSite, Link, Sector, Topology
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.optimization.topology_component_counter import count_topology_components
from terragraph_planner.optimization.topology_operations import compute_capex, compute_max_pop_capacity_of_topology

LEVEL = "model_checking"
RULE = "a distinct network"
ACT = ("PROPOSED", "EXISTING")


def build(rng):
    t = Topology()
    devs = {
        "DN": [w.device("DN_A", "DN", node_capex=rng.choice([250.0, 0.0, 99.5])), w.device("DN_B", "DN", node_capex=1000.0, nodes=2)],
        "CN": [w.device("CN_A", "CN", node_capex=70.0), w.device("CN_B", "CN", node_capex=rng.choice([0.0, 31.0]))],
    }
    n = rng.randint(2, 8)
    site, obj, sec, sobj, link, lobj = {}, {}, {}, {}, {}, {}
    pool = ["CANDIDATE", "PROPOSED", "EXISTING", "PROPOSED", "UNAVAILABLE", "UNREACHABLE"] if rng.random() < 0.7 else ["PROPOSED", "EXISTING"]
    for i in range(n):
        ty = "POP" if i == 0 else rng.choice(["DN", "DN", "CN", "CN", "POP"])
        loc = rng.randint(0, n - 1) if rng.random() < 0.4 else 100 + i
        d = rng.choice(devs["CN" if ty == "CN" else "DN"])
        o = w.site(ty, w.at(100.0 * (loc % 100), 60.0 * (loc // 100), 5.0 if loc % 3 else 9.0), d, rng.choice(pool), f"s{i}")
        if o.site_id in t.sites:
            continue
        t.add_site(o)
        obj[f"s{i}"] = o
        site[f"s{i}"] = {"type": ty, "status": o.status_type.name, "loc": loc, "sku": d.device_sku, "cost": float(d.node_capex)}
        for node in range(1 if ty == "CN" else rng.randint(0, 3)):
            st = o.status_type.name
            st = rng.choice(["CANDIDATE", "PROPOSED", "EXISTING"]) if st in ACT else st
            for pos in range(rng.randint(1, 2)):
                x = Sector(o, node, pos, 90.0 * node, status_type=ST[st], channel=rng.choice([0, 0, 1]))
                t.add_sector(x)
                k = f"s{i}_{node}_{pos}"
                sec[k] = {"site": f"s{i}", "node": node, "status": st, "channel": x.channel}
                sobj[k] = x
    names = list(obj)
    of = lambda a: [k for k, v in sec.items() if v["site"] == a]  # noqa: E731
    for a in names:
        for b in names:
            if a == b or site[a]["type"] == "CN" or f"{b}>{a}" in link or rng.random() > 0.5 or site[a]["loc"] == site[b]["loc"]:
                continue
            st = legal_link_status(site[a]["status"], site[b]["status"], rng, rng.choice([["PROPOSED", "CANDIDATE"], None]))
            if st is None:
                continue
            cn = site[b]["type"] == "CN"
            wl = cn or rng.random() < 0.75
            p = q = None
            if wl and of(a) and of(b) and rng.random() < 0.85:
                p, q = rng.choice(of(a)), rng.choice(of(b))
                if st in ACT:  # both ends of an active link use one channel
                    sobj[q].channel = sec[q]["channel"] = sec[p]["channel"]
            for x, y, u, v in ((a, b, p, q), (b, a, q, p)):
                if site[x]["type"] == "CN" or (f"{x}>{y}" != f"{a}>{b}" and rng.random() < 0.1):
                    continue
                kw = {"tx_sector": sobj[u], "rx_sector": sobj[v]} if u else {}
                o = Link(obj[x], obj[y], status_type=ST[st], is_wireless=wl, **kw)
                o.capacity = float(rng.choice([0, 300, 770, 1800, 1800]))
                t.add_link(o)
                lobj[f"{x}>{y}"] = o
                link[f"{x}>{y}"] = {"tx": x, "rx": y, "wireless": wl, "status": st, "ts": u or "none", "rs": v or "none", "cap": float(o.capacity)}
    # reassigning channels may have detached an earlier pair: read back
    demand = {"none": []}
    for k in range(rng.randint(0, 3)):
        cs = rng.sample(names, rng.randint(1, min(3, len(names))))
        d = DemandSite(location=w.at(5000 + k, 0), connected_sites=[obj[x] for x in cs])
        t.add_demand_site(d)
        demand[f"d{k}"] = cs
    same = all(
        len({sec[l["ts"]]["channel"], sec[l["rs"]]["channel"]}) == 1 for l in link.values() if l["ts"] != "none" and l["status"] in ACT
    )
    none = {"none": "x"}
    return t, same, {
        "site": {**none, **site}, "sec": {**none, **sec}, "link": {**none, **link}, "demand": demand,
    }


def case(rng, _k):
    t, same, rec = build(rng)
    while not same:
        t, same, rec = build(rng)
    out = []
    st, v = attempt(count_topology_components, t)
    if st != "ok":
        out.append({"kind": "crash", "what": "count_topology_components", "text": f"{st}: {v}", **rec})
    else:
        out.append({"kind": "count", "got": dict(v[0]._asdict()), "skus": {"none": 0, **{k: n for k, n in v[1].items() if n}},
                    "chans": {"none": 0, **{str(k): n for k, n in v[2].items()}}, **rec})
    p = OptimizerParams(device_list=[w.device("DN_A", "DN"), w.device("CN_A", "CN")], pop_site_capex=rng.choice([1500.0, 0.0]), dn_site_capex=rng.choice([1000.0, 333.25]), cn_site_capex=rng.choice([0.0, 150.0]))
    st, v = attempt(compute_capex, t, p)
    if st != "ok":
        out.append({"kind": "crash", "what": "compute_capex", "text": f"{st}: {v}", **rec})
    else:
        out.append({"kind": "cost", "proposed": float(v.proposed_capex), "total": float(v.total_capex),
                    "price": {"pop": float(p.pop_site_capex), "dn": float(p.dn_site_capex), "cn": float(p.cn_site_capex)}, **rec})
    f = rng.choice([["PROPOSED", "EXISTING"], ["PROPOSED", "EXISTING", "CANDIDATE"]])
    lim = float(rng.choice([10000, 2000, 1000, 0]))
    st, v = attempt(compute_max_pop_capacity_of_topology, t, lim, {ST[x] for x in f})
    if st != "ok":
        out.append({"kind": "crash", "what": "compute_max_pop_capacity_of_topology", "text": f"{st}: {v}", **rec})
    else:
        out.append({"kind": "feed", "got": float(v), "limit": lim, "filter": f, **rec})
    return out


def run(ctx):
    cases = [c for cs in ctx.pmap(case, range(ctx.pick(1200, 20000))) for c in cs]
    for c in cases:
        if c["kind"] != "crash":
            ctx.nontrivial({k: c[k] for k in ("kind", "site", "sec", "link", "demand")})
    ctx.judge("Count", cases, [f"{c['kind']}#{k}" for k, c in enumerate(cases)])
