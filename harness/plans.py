"""Small prepared networks for the optimisation models (specs Capacity, ...).

An abstract plan is {"site", "sec", "link", "dem", "cfg"}; `Built` is the real
Topology with names both ways.  The networks satisfy validate_topology_status.
"""
import itertools
import math

from harness import world as w
from harness.world import ST, DemandSite, Link, Sector, Topology
from terragraph_planner.common.configuration.configs import OptimizerParams

ACTIVE = ("PROPOSED", "EXISTING")
BACKBONE = ("POP", "DN")


def pick_status(rng, mode):
    return rng.choice({
        "candidate": ["CANDIDATE"],
        "mixed": ["CANDIDATE"] * 4 + ["PROPOSED", "EXISTING", "UNREACHABLE"],
        "active": ["PROPOSED", "EXISTING"],
        "mostly": ["EXISTING", "PROPOSED", "PROPOSED", "CANDIDATE"],
    }[mode])


def random_plan(rng, pops=(1, 2), dns=(1, 3), cns=(0, 2), density=0.65, wired=0.1, colocate=0.15, mode="mixed", demands=(0, 1), pop_demand=0.15,
                active_links=0.6, caps=(0.0, 0.5, 1.0, 1.0, 1.8, 2.0), amounts=(0.1, 0.3, 0.5, 0.7, 1.0, 1.5), copies=0.1, share=0.4, nodes=0.3, polar=True, upgrade=0.0):
    site, order = {}, []
    kinds = ["POP"] * rng.randint(*pops) + ["DN"] * rng.randint(*dns) + ["CN"] * rng.randint(*cns)
    cnt = {"POP": 0, "DN": 0, "CN": 0}
    used = {}
    for k in kinds:
        n = k[0].lower() + str(cnt[k])
        cnt[k] += 1
        p = None
        hosts = [m for m in order if site[m]["type"] == "DN" and site[m]["status"] == "CANDIDATE"] if upgrade and k == "CN" else []
        if hosts and rng.random() < upgrade:  # a CN that is in the plan on a pole that could carry a DN
            p = site[rng.choice(hosts)]["pos"]
        elif order and rng.random() < colocate:
            q = site[rng.choice(order)]["pos"]
            p = q
        else:
            while p is None or tuple(p) in used:
                p = [round(rng.uniform(-300, 300)), round(rng.uniform(-300, 300))]
        clash = sum(1 for m in site if site[m]["pos"] == p and site[m]["type"] == k)
        used.setdefault(tuple(p), []).append(n)
        st = rng.choice(["PROPOSED", "EXISTING"]) if hosts and p in [site[m]["pos"] for m in hosts] else pick_status(rng, mode)
        fam = "CN_" if k == "CN" else "DN_"
        site[n] = {"type": k, "status": st, "pos": p, "sku": fam + ("ABCDE"[clash] if clash else rng.choice("AAB"))}
        if clash:
            taken = {site[m]["sku"] for m in used[tuple(p)] if m != n and site[m]["type"] == k}
            site[n]["sku"] = fam + next(x for x in "ABCDEFG" if fam + x not in taken)
        order.append(n)
    # sectors: two nodes at most, one or two sectors per node
    sec = {}
    for n, s in site.items():
        if s["type"] == "CN":
            lay = [(0, 0)]
        else:
            lay = [(0, 0)] + ([(0, 1)] if rng.random() < nodes else []) + ([(1, 0)] if rng.random() < 0.6 else [])
        for a, b in lay:
            sec[f"{n}.{a}.{b}"] = {"site": n, "node": a, "pos": b, "status": "CANDIDATE"}
    link = {}
    colour = {}
    for a, b in itertools.combinations(order, 2):
        ta, tb = site[a]["type"], site[b]["type"]
        if site[a]["pos"] == site[b]["pos"] or (ta == "CN" and tb == "CN"):
            continue
        if rng.random() > density:
            continue
        wl = "CN" in (ta, tb) or rng.random() >= wired
        stats = (site[a]["status"], site[b]["status"])
        if any(x in ("UNREACHABLE", "UNAVAILABLE") for x in stats):
            st = rng.choice(["UNREACHABLE", "UNAVAILABLE"]) if "UNAVAILABLE" not in stats else "UNAVAILABLE"
        else:
            opts = ["CANDIDATE"] if rng.random() > active_links else (["EXISTING"] if stats == ("EXISTING", "EXISTING") else ["PROPOSED"] if all(x in ACTIVE for x in stats) else ["CANDIDATE"])
            st = opts[0]
            if rng.random() < 0.04:
                st = "UNAVAILABLE"
        if st in ACTIVE and wl and polar and ta in BACKBONE and tb in BACKBONE:
            ca, cb = colour.get(a), colour.get(b)
            if ca is None and cb is None:
                colour[a], colour[b] = 0, 1
            elif ca is None or cb is None:
                colour[a] = 1 - cb if ca is None else ca
                colour[b] = 1 - ca if cb is None else cb
            elif ca == cb:
                st = "CANDIDATE"
        if ta == "CN":
            dirs = [(b, a)]
        elif tb == "CN":
            dirs = [(a, b)]
        else:
            dirs = [(a, b), (b, a)]
        sa = rng.choice([k for k in sec if sec[k]["site"] == a])
        sb = rng.choice([k for k in sec if sec[k]["site"] == b])
        out = wl and st not in ACTIVE and rng.random() < 0.06
        cap = rng.choice(caps)
        for x, y in dirs:
            link[f"{x}>{y}"] = {
                "tx": x, "rx": y, "wired": not wl, "status": st,
                "cap": cap if rng.random() < 0.7 else rng.choice(caps),
                "ts": "none" if out or not wl else (sa if x == a else sb), "rs": "none" if out or not wl else (sa if y == a else sb),
            }
    for l, v in link.items():
        if v["status"] in ACTIVE and v["ts"] != "none":
            for k in (v["ts"], v["rs"]):
                if v["status"] == "EXISTING":
                    sec[k]["status"] = "EXISTING"
                elif sec[k]["status"] != "EXISTING":
                    sec[k]["status"] = site[sec[k]["site"]]["status"]
    for k, v in sec.items():
        same = [x["status"] for x in sec.values() if x["site"] == v["site"] and x["node"] == v["node"]]
        for st in ("EXISTING", "PROPOSED"):
            if st in same:
                v["status"] = st
                break
        if site[v["site"]]["status"] in ("UNREACHABLE", "UNAVAILABLE"):
            v["status"] = site[v["site"]]["status"]
    dem = {}
    for n, s in site.items():
        if s["type"] == "CN" and rng.random() < 0.95:
            dem["q" + n] = {"sites": [m for m in site if site[m]["pos"] == s["pos"]], "amount": rng.choice(amounts), "copies": 2 if rng.random() < copies else 1}
    for k in range(rng.randint(*demands)):
        pool = [n for n in site if site[n]["type"] == "DN" or (site[n]["type"] == "POP" and rng.random() < pop_demand)]
        if pool:
            dem[f"u{k}"] = {"sites": sorted(rng.sample(pool, min(len(pool), rng.choice([1, 1, 2])))), "amount": rng.choice(amounts), "copies": 2 if rng.random() < copies else 1}
    return {"site": site, "sec": sec, "link": link, "dem": dem}


def random_cfg(rng, plan, **over):
    skus = sorted({s["sku"] for s in plan["site"].values()} | {"DN_A"})
    cfg = {
        "capex": {"POP": rng.choice([0.0, 1500.0, 2000.0]), "DN": rng.choice([500.0, 1000.0, 1500.0]), "CN": rng.choice([0.0, 200.0, 1500.0])},
        "node": {s: rng.choice([0.0, 100.0, 250.0, 400.0]) for s in skus},
        "pop": rng.choice([0.7, 1.0, 2.0, 10.0]),
        "over": rng.choice([1.0, 1.0, 2.0]),
        "always": rng.random() < 0.5,
        "blind": rng.random() < 0.15,
        "common": False,
        "budget": 0.0,
        "extra": 0,
    }
    cfg.update(over)
    return cfg


class Built:
    def __init__(self, plan, cfg, rng=None):
        self.plan, self.cfg = plan, cfg
        t = self.t = Topology()
        self.dev = {}
        for sku, price in cfg["node"].items():
            self.dev[sku] = w.device(sku, "CN" if sku.startswith("CN") else "DN", nodes=4, node_capex=price)
        self.site, self.sec, self.link, self.dem = {}, {}, {}, {}
        names = list(plan["site"])
        if rng:
            rng.shuffle(names)
        for n in names:
            s = plan["site"][n]
            o = w.site(s["type"], w.at(*s["pos"], 5.0), self.dev[s["sku"]], s["status"], n, building=s.get("building"), ltype=s.get("where"))
            t.add_site(o)
            self.site[n] = o
        keys = list(plan["sec"])
        if rng:
            rng.shuffle(keys)
        for k in keys:
            v = plan["sec"][k]
            o = Sector(self.site[v["site"]], v["node"], v["pos"], 90.0 * v["node"] + 20.0 * v["pos"], status_type=ST[v["status"]])
            t.add_sector(o)
            self.sec[k] = o
        keys = list(plan["link"])
        if rng:
            rng.shuffle(keys)
        for l in keys:
            v = plan["link"][l]
            kw = {} if v["ts"] == "none" else {"tx_sector": self.sec[v["ts"]], "rx_sector": self.sec[v["rs"]]}
            o = Link(self.site[v["tx"]], self.site[v["rx"]], status_type=ST[v["status"]], is_wireless=not v["wired"], **kw)
            o.capacity = float(v["cap"])
            o.link_budget.rsl_dbm = v.get("rsl", -50.0)
            o.is_redundant = v.get("spare", False)
            t.add_link(o)
            self.link[l] = o
        for k, (d, v) in enumerate(plan["dem"].items()):
            o = DemandSite(location=w.at(9000 + 7 * k, 9000), demand=v["amount"], num_sites=v["copies"], connected_sites=[self.site[s] for s in v["sites"]])
            t.add_demand_site(o)
            self.dem[d] = o
        self.name = {o.site_id: n for n, o in self.site.items()}
        self.name["SUPERSOURCE"] = "SRC"
        for d, o in self.dem.items():
            for k in range(plan["dem"][d]["copies"]):
                self.name[o.demand_id + (f"_{k}" if k else "")] = f"{d}/{k}"
        self.sname = {o.sector_id: k for k, o in self.sec.items()}

    def params(self, **kw):
        c = self.cfg
        p = OptimizerParams(
            device_list=list(self.dev.values()), pop_site_capex=c["capex"]["POP"], dn_site_capex=c["capex"]["DN"], cn_site_capex=c["capex"]["CN"],
            pop_capacity=c["pop"], oversubscription=c["over"], always_active_pops=c["always"],
            maximize_common_bandwidth=c["common"], budget=c["budget"], number_of_extra_pops=c["extra"],
            min_cost_rel_stop=1e-9, max_coverage_rel_stop=1e-9, pop_proposal_rel_stop=1e-9, redundancy_rel_stop=1e-9, interference_rel_stop=1e-9, **kw,
        )
        p.ignore_polarities = c["blind"]
        return p

    def record(self):
        """The plan as the specification reads it."""
        p, c = self.plan, self.cfg
        site = {}
        for n, s in p["site"].items():
            nodes = {v["node"] for v in p["sec"].values() if v["site"] == n}
            site[n] = {
                "type": s["type"], "status": s["status"], "at": f"{s['pos'][0]},{s['pos'][1]}",
                "capex": float(c["capex"][s["type"]]), "node": float(c["node"][s["sku"]]), "nodes": len(nodes),
            }
        dem = {}
        for d, v in p["dem"].items():
            for k in range(v["copies"]):
                dem[f"{d}/{k}"] = {"sites": v["sites"], "need": v["amount"] / c["over"]}
        caps = [v["cap"] for v in p["link"].values()]
        return {
            "site": site, "sec": p["sec"],
            "link": {l: {**{k: v[k] for k in ("tx", "rx", "wired", "status", "ts", "rs")}, "cap": float(v["cap"])} for l, v in p["link"].items()},
            "dem": dem,
            "cfg": {"pop": float(c["pop"]), "always": c["always"], "blind": c["blind"], "common": c["common"], "budget": float(c["budget"]), "extra": c["extra"], "hand": float(max(caps) if caps else c["pop"])},
        }

    def decisions(self, sol):
        """An OptimizationSolution with the names of the plan."""
        nm = lambda x: self.name.get(x, f"?{x}")  # noqa: E731
        sn = lambda x: self.sname.get(x, f"?{x}")  # noqa: E731
        arc = lambda k: f"{nm(k[0])}>{nm(k[1])}"  # noqa: E731
        real = lambda k: nm(k[0]) != "SRC" and "/" not in nm(k[1])  # noqa: E731
        return {
            "on": sorted(nm(k) for k, v in sol.site_decisions.items() if v == 1),
            "odd": sorted(nm(k) for k, v in sol.odd_site_decisions.items() if v == 1),
            "even": sorted(nm(k) for k, v in sol.even_site_decisions.items() if v == 1),
            "secs": sorted(sn(k[1]) for k, v in sol.sector_decisions.items() if v == 1),
            "links": sorted(arc(k) for k, v in sol.link_decisions.items() if v == 1 and real(k)),
            "flow": {"none": 0.0, **{arc(k): float(v) for k, v in sol.flow_decisions.items()}},
            "tdm": {"none": 0.0, **{arc(k): float(v) for k, v in sol.tdm_decisions.items()}} if hasattr(sol, "tdm_decisions") else {"none": 0.0},
            "short": {"none": 0.0, **{nm(k): float(v) for k, v in sol.shortage_decisions.items()}},
            "chan": {"none": -1, **{sn(k[1]): int(v) for k, v in sol.channel_decisions.items() if sn(k[1])[0] != "?"}},
            "objective": float(sol.objective_value), "cost": float(sol.cost),
        }


def judge(ctx, cases, op, module="Capacity"):
    cases = [c for c in cases if c is not None]
    for c in cases:
        ctx.nontrivial({k: v for k, v in c.items() if k not in ("out", "text")})
    ctx.notes["outcomes"] = {"refused": sum(1 for c in cases if c.get("out") == []), "planned": sum(1 for c in cases if c.get("out"))}
    ctx.judge(module, cases, [f"{c['kind']}#{k}" for k, c in enumerate(cases)], op=op)
