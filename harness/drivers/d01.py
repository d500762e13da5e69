"""D01: deployment rules (spec/Rules.tla) on generated networks with sectors."""
import math

from harness import world as w
from harness.core import attempt
from harness.world import ST, Link, Sector, Topology
from terragraph_planner.optimization.deployment_rules import (
    find_angle_violating_link_pairs,
    find_sector_limit_violations,
    get_violating_link_ids,
)

LEVEL = "model_checking"
RULE = "a distinct network with its limits"


def build(rng, p2mp):
    """A hub with spokes (and links among spokes), sectors with channels."""
    t = Topology()
    lat0, lon0 = rng.choice([(37.48, -122.15), (0.0, 0.0), (-33.9, 179.9995), (59.9, 10.7), (1.3, 103.8), (48.1, -179.9996)])
    devs = {"DN": w.device("DN_A", "DN"), "CN": w.device("CN_A", "CN")}
    n = rng.randint(3, 8 if p2mp else 7)
    objs, name, sec, sname = [], {}, {}, {}
    base = rng.uniform(0, 360)
    for k in range(n):
        kind = "DN" if k == 0 else rng.choice(["DN", "DN", "CN", "CN", "POP"] if p2mp else ["DN", "DN", "CN", "POP"])
        if k == 0:
            x = y = 0.0
        else:
            ang = math.radians(base + rng.choice([0, 10, 19, 21, 30, 44, 46, 60, 90, 180, 200, rng.uniform(0, 360)]) + rng.uniform(-1, 1))
            d = rng.choice([30, 90, 100, 200, 310]) * rng.uniform(0.97, 1.03)
            x, y = d * math.sin(ang), d * math.cos(ang)
        st = rng.choice(["PROPOSED"] * 4 + ["EXISTING", "CANDIDATE"])
        loc = w.at(x, y, 5.0, lat0, lon0)
        s = w.site(kind, loc, devs["CN" if kind == "CN" else "DN"], st, f"s{k}")
        if s.site_id in t.sites:
            continue
        t.add_site(s)
        objs.append(s)
        name[s.site_id] = f"s{k}"
        for q in range(1 if kind == "CN" else rng.randint(1, 3)):
            c = Sector(s, q, 0, (q * 120.0) % 360, status_type=s.status_type)
            if rng.random() < 0.7:
                c.channel = rng.choice([0, 0, 1])
            t.add_sector(c)
            sec.setdefault(s.site_id, []).append(c)
            sname[c.sector_id] = f"{name[s.site_id]}_{q}"
    pairs = [(objs[0], o) for o in objs[1:]]
    pairs += [(o, objs[0]) for o in objs[1:] if o.site_type.name != "CN" and rng.random() < 0.8]
    rest = [(a, b) for a in objs[1:] for b in objs[1:] if a is not b and a.site_type.name != "CN" and rng.random() < 0.3]
    lname = {}
    for a, b in pairs + rest:
        ok = ["CANDIDATE"]
        if all(o.status_type.name in ("PROPOSED", "EXISTING") for o in (a, b)):
            ok = ["PROPOSED"] * 4 + ["CANDIDATE"] + (["EXISTING"] if {a.status_type.name, b.status_type.name} == {"EXISTING"} else [])
        wl = rng.random() < 0.92 or "CN" in (a.site_type.name, b.site_type.name)
        st = rng.choice(ok)
        p, q = rng.choice(sec[a.site_id]), rng.choice(sec[b.site_id])
        if st == "CANDIDATE" and rng.random() < 0.1 or not wl:
            p = q = None
        l = Link(a, b, tx_sector=p, rx_sector=q, status_type=ST[st], is_wireless=wl)
        t.add_link(l)
        lname[l.link_id] = name[a.site_id] + ">" + name[b.site_id]
    return t, name, sname, lname


def project(t, name, sname, lname):
    return {
        "site": {name[i]: {"lat": s.latitude, "lon": s.longitude} for i, s in t.sites.items()},
        "sec": {
            sname[i]: {"site": name[s.site.site_id], "type": s.sector_type.name, "status": s.status_type.name, "channel": s.channel}
            for i, s in t.sectors.items()
        },
        "link": {
            lname[i]: {
                "tx": name[l.tx_site.site_id], "rx": name[l.rx_site.site_id], "wireless": l.is_wireless, "status": l.status_type.name,
                "ts": sname[l.tx_sector.sector_id] if l.tx_sector else "none", "rs": sname[l.rx_sector.sector_id] if l.rx_sector else "none",
            }
            for i, l in t.links.items()
        },
    }


def angle_cases(rng, _k):
    t, name, sname, lname = build(rng, False)
    rec = project(t, name, sname, lname)
    out = []
    for active in (False, True):
        limit = rng.choice([20.0, 25.0, 45.0, 90.0, 10.0, 180.0])
        nf = rng.choice([45.0, 45.0, 60.0, 20.0, 100.0, 180.0])
        ratio = rng.choice([3.0, 3.0, 2.0, 1.0, 1.5])
        st, v = attempt(find_angle_violating_link_pairs, t, limit, nf, ratio, active)
        if st != "ok":
            out.append({"kind": "crash", "what": "find_angle_violating_link_pairs", "text": f"{st}: {v}", **rec})
            continue
        tri = lambda s: [[name.get(x, "?") for x in p] for p in s]  # noqa: E731
        out.append({"kind": "angles", "active": active, "limit": limit, "nf": nf, "ratio": ratio,
                    "diff": tri(v.diff_sector_list), "near": tri(v.near_far_list), **rec})
        ids = list(v.diff_sector_list) + list(v.near_far_list)
        ids = rng.sample(ids, rng.randint(0, min(3, len(ids))))
        st, g = attempt(get_violating_link_ids, t, ids)
        if st != "ok":
            out.append({"kind": "crash", "what": "get_violating_link_ids", "text": f"{st}: {g}", **rec})
        else:
            out.append({"kind": "named", "trip": tri(ids), "named": sorted(lname.get(x, "?") for x in g), **rec})
    return out


def limit_cases(rng, _k):
    t, name, sname, lname = build(rng, True)
    rec = project(t, name, sname, lname)
    out = []
    for _ in range(2):
        dn, total = rng.choice([(0, 1), (1, 2), (2, 3), (2, 15), (1, 3), (0, 0), (3, 4), (2, 1), (5, 2), (3, 0)])
        st, v = attempt(find_sector_limit_violations, t, dn, total)
        if st != "ok":
            out.append({"kind": "crash", "what": "find_sector_limit_violations", "text": f"{st}: {v}", **rec})
            continue
        out.append({"kind": "limits", "dn_limit": dn, "total_limit": total,
                    "over": [{"sector": sname.get(a, "?"), "rx": sorted(sname.get(x, "?") for x in b)} for a, b in v.items()], **rec})
    return out


def run(ctx):
    n = ctx.pick(350, 6000)
    cases = [c for f in (angle_cases, limit_cases) for cs in ctx.pmap(f, range(n)) for c in cs]
    for c in cases:
        if c["kind"] != "crash":
            ctx.nontrivial({k: v for k, v in c.items() if k not in ("site",)})
    ctx.notes["found"] = {
        "angle": sum(len(c["diff"]) for c in cases if c["kind"] == "angles"),
        "near_far": sum(len(c["near"]) for c in cases if c["kind"] == "angles"),
        "overloaded": sum(len(c["over"]) for c in cases if c["kind"] == "limits"),
    }
    ctx.judge("Rules", cases, [f"{c['kind']}#{k}" for k, c in enumerate(cases)])
