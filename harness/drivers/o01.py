"""O01: applying decisions (spec/Plan.tla; every transition of spec/PlanMC.tla)."""
from harness import tlc
from harness import world as w
from harness.core import attempt
from harness.nets import legal_link_status
from harness.world import ST, Link, Sector, Topology
from terragraph_planner.common.configuration.enums import PolarityType
from terragraph_planner.optimization.structs import OptimizationSolution, RedundancySolution
from terragraph_planner.optimization.topology_optimization import update_topology_with_solution

LEVEL = "model_checking"
RULE = "a distinct network and set of decisions"
ACT = ("PROPOSED", "EXISTING")


class Net:
    def __init__(self, s, order=None):
        self.t = t = Topology()
        dn, cn = w.device("DN_A", "DN"), w.device("CN_A", "CN")
        self.site, self.sec, self.link = {}, {}, {}
        names = list(s["site"])
        pos = {n: k for k, n in enumerate(sorted(names))}
        if order:
            order.shuffle(names)
        for n in names:
            v = s["site"][n]
            o = w.site(v["type"], w.at(97.0 * pos[n], 31.0 * (pos[n] % 3), 5.0), cn if v["type"] == "CN" else dn, v["status"], n)
            if v["type"] != "CN":
                o.polarity = PolarityType[v["pol"]]
            self.site[n] = o
            t.add_site(o)
        cnt = {}
        for k in s["sec"]:
            v = s["sec"][k]
            i = cnt[v["site"]] = cnt.get(v["site"], -1) + 1
            o = Sector(self.site[v["site"]], i, 0, 90.0 * i, status_type=ST[v["status"]], channel=v["channel"])
            self.sec[k] = o
            t.add_sector(o)
        first = {}
        for k in s["sec"]:
            first.setdefault(s["sec"][k]["site"], self.sec[k])
        lk = list(s["link"])
        if order:
            order.shuffle(lk)
        for l in lk:
            v = s["link"][l]
            a, b = v["tx"], v["rx"]
            wl = a in first and b in first
            kw = {"tx_sector": first[a], "rx_sector": first[b]} if wl else {}
            o = Link(self.site[a], self.site[b], status_type=ST[v["status"]], is_wireless=wl, **kw)
            self.link[l] = o
            t.add_link(o)

    def snap(self, s):
        return {
            "site": {n: {"type": o.site_type.name, "status": o.status_type.name, "pol": o.polarity.name} for n, o in self.site.items()},
            "sec": {k: {"site": s["sec"][k]["site"], "status": o.status_type.name, "channel": o.channel} for k, o in self.sec.items()},
            "link": {l: {"tx": s["link"][l]["tx"], "rx": s["link"][l]["rx"], "status": o.status_type.name} for l, o in self.link.items()},
        }

    def solution(self, s, d, redundant):
        sid = {n: o.site_id for n, o in self.site.items()}
        kw = {
            "site_decisions": {sid[n]: v for n, v in d["site"].items()},
            "sector_decisions": {(sid[s["sec"][k]["site"]], self.sec[k].sector_id): v for k, v in d["sec"].items() if k in self.sec},
            "link_decisions": {(sid[s["link"][l]["tx"]], sid[s["link"][l]["rx"]]): v for l, v in d["link"].items()},
            "odd_site_decisions": {sid[n]: 1 if n in d["odd"] else 0 for n in sid if d.get("full", True) or n in d["odd"]},
            "even_site_decisions": {sid[n]: 1 if n in d["even"] else 0 for n in sid if d.get("full", True) or n in d["even"]},
            "channel_decisions": {(sid[s["sec"][k]["site"]], self.sec[k].sector_id): v for k, v in d["channel"].items() if k in self.sec},
            "flow_decisions": {}, "shortage_decisions": {}, "objective_value": 0.0, "cost": 0,
        }
        # the supersource and demand locations also have decisions
        kw["site_decisions"]["SUPERSOURCE"] = 1
        kw["link_decisions"][("SUPERSOURCE", next(iter(sid.values())))] = 1
        return RedundancySolution(**kw) if redundant else OptimizationSolution(tdm_decisions={}, **kw)


def apply_case(rng, item):
    s, d = item["s"], item["d"]
    n = Net(s, rng)
    before = n.snap(s)
    sol = n.solution(s, d, rng.random() < 0.4)
    st, v = attempt(update_topology_with_solution, sol, n.t)
    if st != "ok":
        return {"kind": "crash", "what": "update_topology_with_solution", "text": f"{st}: {v}", "before": before, "d": d}
    after = n.snap(s)
    attempt(update_topology_with_solution, sol, n.t)
    return {"kind": "apply", "before": before, "d": d, "after": after, "again": n.snap(s)}


def random_item(rng):
    types = ["POP"] + [rng.choice(["DN", "DN", "DN", "CN", "CN", "POP"]) for _ in range(rng.randint(2, 7))]
    site, sec, link = {}, {}, {}
    for i, ty in enumerate(types):
        site[f"s{i}"] = {"type": ty, "status": rng.choice(w.STATUS + ["CANDIDATE", "PROPOSED", "EXISTING"] * 2), "pol": "UNASSIGNED" if ty == "CN" else rng.choice(["ODD", "EVEN", "UNASSIGNED"])}
        st = site[f"s{i}"]["status"]
        for j in range(1 if ty == "CN" else rng.choice([0, 1, 1, 2])):
            ss = st if st not in ACT else rng.choice(["CANDIDATE", "PROPOSED"] + (["EXISTING"] if st == "EXISTING" else []))
            sec[f"s{i}_{j}"] = {"site": f"s{i}", "status": ss, "channel": rng.choice([-1, 0, 1])}
    names = list(site)
    for a in names:
        for b in names:
            if a != b and site[a]["type"] != "CN" and f"{b}>{a}" not in link and rng.random() < 0.45:
                st = legal_link_status(site[a]["status"], site[b]["status"], rng, rng.choice([["PROPOSED", "CANDIDATE"], ["EXISTING"], None]))
                if st is None:
                    continue
                for p, q in [(a, b)] + ([(b, a)] if site[b]["type"] != "CN" else []):
                    link[f"{p}>{q}"] = {"tx": p, "rx": q, "status": st}
    sec = sec or {"none": {"site": "s0", "status": site["s0"]["status"] if site["s0"]["status"] != "EXISTING" else "CANDIDATE", "channel": -1}}
    if not link:
        return None
    S = {n for n in names if rng.random() < 0.75}
    ok = lambda n: site[n]["status"] == "EXISTING" or (site[n]["status"] in ("CANDIDATE", "PROPOSED") and n in S)  # noqa: E731
    d = {"site": {n: 1 if n in S else 0 for n in names}, "sec": {}, "link": {}, "channel": {"none": 0}, "odd": [], "even": []}
    if rng.random() < 0.5:
        d["site"] = {n: v for n, v in d["site"].items() if v} or {names[0]: d["site"][names[0]]}
    for k, v in sec.items():
        if ok(v["site"]) and rng.random() < 0.7:
            d["sec"][k] = 1
        elif rng.random() < 0.5:
            d["sec"][k] = 0
        if rng.random() < 0.6:
            d["channel"][k] = rng.choice([0, 1])
    d["sec"] = d["sec"] or {"none": 0}
    for l, v in link.items():
        if l in d["link"]:
            continue
        x = 1 if ok(v["tx"]) and ok(v["rx"]) and rng.random() < 0.65 else 0
        d["link"][l] = x
        r = f"{v['rx']}>{v['tx']}"
        if r in link:
            d["link"][r] = x
    for n in names:
        q = rng.random()
        if site[n]["type"] != "CN" and q < 0.6:
            (d["odd"] if q < 0.3 else d["even"]).append(n)
    d["full"] = rng.random() < 0.5
    return {"s": {"site": site, "sec": sec, "link": link}, "d": d}


def run(ctx):
    rc, es, dist, gen, rest = tlc.edges(None, "PlanMC", "SPECIFICATION Spec\nINVARIANT PlanSane\nCHECK_DEADLOCK FALSE\n", workers=8)
    if rc != 0:
        raise tlc.TlcError(rest)
    ctx.model(dist, gen, "PlanMC")
    es.sort(key=lambda e: str(e))
    rng = ctx.sub("pick")
    ctx.notes["model_transitions"] = len(es)
    items = [{"s": e["s"], "d": e["d"]} for e in rng.sample(es, min(len(es), ctx.pick(4000, 80000)))]
    items += [x for x in (random_item(rng) for _ in range(ctx.pick(4000, 60000))) if x]
    cases = ctx.pmap(apply_case, items)
    for x in items:
        ctx.nontrivial(x)
    # a location cannot be both odd and even
    for k in range(8):
        x = None
        while x is None:
            x = random_item(rng)
        n = [a for a, v in x["s"]["site"].items() if v["type"] != "CN"][0]
        x["d"]["odd"].append(n)
        x["d"]["even"].append(n)
        net = Net(x["s"])
        st, _ = attempt(update_topology_with_solution, net.solution(x["s"], x["d"], k % 2 == 0), net.t)
        cases.append({"kind": "both_polarities", "refused": st == "OptimizerException"})
    ctx.judge("Plan", cases, [f"{c['kind']}#{k}" for k, c in enumerate(cases)])
