"""M06: the course of planning (spec/Pipeline.tla).  TLC explores every setting
and every sequence of step answers (PipelineMC); those courses are then forced
onto real planning runs by scripting the solver, and every recorded run is
judged: which steps were asked, with what, how their answers changed the
network, how planning ended."""
import contextlib
import itertools
import math

import xpress

from harness import tlc
from harness import world as w
from harness.core import attempt
from harness.nets import legal_link_status
from harness.world import ST, Link, Topology
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.common.configuration.enums import RedundancyLevel
from terragraph_planner.common.exceptions import OptimizerException
from terragraph_planner.optimization import topology_optimization as to
from terragraph_planner.optimization.deployment_rules import find_angle_violating_link_pairs
from terragraph_planner.optimization.ilp_models.cost_optimization import MinCostNetwork
from terragraph_planner.optimization.ilp_models.coverage_optimization import MaxCoverageNetwork
from terragraph_planner.optimization.ilp_models.interference_optimization import MinInterferenceNetwork
from terragraph_planner.optimization.ilp_models.pop_proposal_optimization import POPProposalNetwork
from terragraph_planner.optimization.ilp_models.redundancy_optimization import RedundantNetwork, compute_candidate_edges_for_redundancy
from terragraph_planner.optimization.topology_interference import compute_link_interference
from terragraph_planner.optimization.topology_operations import compute_capex, get_adversarial_links
from terragraph_planner.optimization.topology_preparation import prepare_topology_for_optimization

LEVEL = "model_checking"
RULE = "a distinct planning history (network, settings, answers of the steps)"
ASSUMPTIONS = ["the solver is replaced by an exact stand-in; its time-outs and failures are scripted"]

ACTIVE = ("PROPOSED", "EXISTING")
STEPS = {"extra": (POPProposalNetwork, "propose_pops"), "cost": (MinCostNetwork, "solve"), "coverage": (MaxCoverageNetwork, "solve"),
         "redundancy": (RedundantNetwork, "solve"), "interference": (MinInterferenceNetwork, "solve")}
FORCE = {"plan": None, "none": "infeasible", "timeout": "time_out"}


class Script(list):
    """A solver script that never runs out."""

    def __init__(self, f):
        super().__init__([f])

    def pop(self, k=0):
        return self[0]


def names(t):
    nm = {s.site_id: s.name for s in t.sites.values()}
    return nm, {k: f"{nm[s.site.site_id]}.{s.node_id}.{s.position_in_node}" for k, s in t.sectors.items()}


def snap(t):
    nm, sn = names(t)
    return {
        "site": {nm[k]: {"type": s.site_type.name, "status": s.status_type.name, "pol": s.polarity.name} for k, s in t.sites.items()},
        "sec": {sn[k]: {"site": nm[s.site.site_id], "status": s.status_type.name, "channel": s.channel} for k, s in t.sectors.items()},
        "link": {f"{nm[l.tx_site.site_id]}>{nm[l.rx_site.site_id]}": {"tx": nm[l.tx_site.site_id], "rx": nm[l.rx_site.site_id], "status": l.status_type.name} for l in t.links.values()},
    }


def decided(t, sol):
    nm, sn = names(t)
    one = lambda d: {nm[k]: int(v) for k, v in d.items() if k in nm}  # noqa: E731
    return {
        "site": one(sol.site_decisions), "odd": sorted(k for k, v in one(sol.odd_site_decisions).items() if v == 1),
        "even": sorted(k for k, v in one(sol.even_site_decisions).items() if v == 1),
        "link": {f"{nm[a]}>{nm[b]}": int(v) for (a, b), v in sol.link_decisions.items() if a in nm and b in nm},
        "sec": {sn[k]: int(v) for (_, k), v in sol.sector_decisions.items() if k in sn},
        "channel": {sn[k]: int(v) for (_, k), v in sol.channel_decisions.items() if k in sn},
    }


NOTHING = {"site": {"none": 0}, "odd": [], "even": [], "link": {"none": 0}, "sec": {"none": 0}, "channel": {"none": -1}}


@contextlib.contextmanager
def watched(t, params, asked, answers):
    """Record every step of planning; answers: what the solver is made to say."""
    want = [None]
    used = [False]
    saved = []

    def script(problem):
        used[0] = True
        return want[0]

    args = {}

    def hook(step, cls, meth):
        init, run = cls.__init__, getattr(cls, meth)
        saved.extend([(cls, "__init__", cls.__dict__.get("__init__")), (cls, meth, cls.__dict__.get(meth))])

        def on_init(self, topology, params, *a, **k):
            args[id(self)] = (a, k)
            init(self, topology, params, *a, **k)

        def on_run(self, *a, **k):
            queue = answers.get(step, [])
            say = queue.pop(0) if queue else "plan"
            rec = {"step": step, "cov": 0, "answer": "", "left": False, "before": snap(t), "d": NOTHING, "caps": [], "blind": bool(self.params.ignore_polarities), "ask": {"fine": True}}
            capex = compute_capex(t, params).proposed_capex
            if asked and asked[-1]["step"] == "cost":
                asked[-1]["left"] = bool(params.budget - capex > 0)
            rec["capex"] = float(capex)
            extra, kw = args.get(id(self), ((), {}))
            vals = list(extra) + list(kw.values())
            if step == "cost":
                c = k.get("coverage_percentage", a[0] if a else None)
                rec["cov"] = round(c * 10) if c is not None and abs(c * 10 - round(c * 10)) < 1e-6 else -1
            elif step == "coverage":
                rec["ask"]["adversarial"] = set(vals[0]) == set(get_adversarial_links(t, params.backhaul_link_redundancy_ratio))
                rec["ask"]["budget"] = self.params.budget == params.budget
            elif step == "redundancy":
                p = vals[0]
                rec["caps"] = [int(p.pop_node_capacity), int(p.dn_node_capacity), int(p.sink_node_capacity)]
                keep = want[0]
                want[0] = None
                pool = set(compute_candidate_edges_for_redundancy(topology=t, pop_source_capacity=4.0, dn_source_capacity=2.0))
                want[0] = keep
                ends = {x for e in pool for x in e}
                pool |= {(l.tx_site.site_id, l.rx_site.site_id) for l in t.links.values() if l.status_type.name in ACTIVE and {l.tx_site.site_id, l.rx_site.site_id} <= ends}
                rec["ask"]["pool"] = set(vals[1]) == pool
            elif step == "interference":
                v = find_angle_violating_link_pairs(t, params.diff_sector_angle_limit, params.near_far_angle_limit, params.near_far_length_ratio, active_components=False)
                rec["ask"]["angles"] = {tuple(x) for x in vals[0]} == {tuple(x) for x in v.diff_sector_list + v.near_far_list}
                heard = compute_link_interference(t, params.maximum_eirp)
                rec["ask"]["heard"] = set(heard) == set(vals[1]) and all(heard[x] == vals[1][x] or abs(heard[x] - vals[1][x]) < 1e-6 for x in heard)
            asked.append(rec)
            want[0] = FORCE[say]
            used[0] = False
            try:
                sol = run(self, *a, **k)
            finally:
                want[0] = None
            rec["answer"] = "plan" if sol is not None else "timeout" if say == "timeout" and used[0] else "none"
            if sol is not None and step != "extra":
                rec["d"] = decided(t, sol)
            return sol

        cls.__init__ = on_init
        setattr(cls, meth, on_run)

    old = xpress.SCRIPT
    xpress.SCRIPT = Script(script)
    try:
        for step, (cls, meth) in STEPS.items():
            hook(step, cls, meth)
        yield
    finally:
        xpress.SCRIPT = old
        for cls, meth, f in reversed(saved):
            if f is None:
                delattr(cls, meth)
            else:
                setattr(cls, meth, f)


def raw(rng, pops):
    """A small input network, not yet prepared."""
    site, link = {}, {}
    kinds = (["POP"] * rng.choice([1, 1, 2]) if pops else []) + ["DN"] * rng.randint(2, 4) + ["CN"] * rng.randint(1, 3)
    mode = rng.choice(["new", "new", "mixed"])
    spot = set()
    for i, k in enumerate(kinds):
        p = None
        while p is None or any(math.dist(p, q) < 25 for q in spot):
            p = (rng.randint(-160, 160), rng.randint(-160, 160))
        spot.add(p)
        st = "CANDIDATE" if mode == "new" else rng.choice(["CANDIDATE"] * 5 + ["EXISTING", "EXISTING", "PROPOSED", "UNAVAILABLE"])
        site[f"{k[0].lower()}{i}"] = {"type": k, "pos": p, "status": st}
    names_ = list(site)
    for a, b in itertools.combinations(names_, 2):
        ta, tb = site[a]["type"], site[b]["type"]
        if ta == tb == "CN" or rng.random() > 0.75:
            continue
        st = legal_link_status(site[a]["status"], site[b]["status"], rng, [["CANDIDATE"], ["EXISTING", "PROPOSED", "CANDIDATE"]][rng.random() < 0.5])
        if st is None:
            continue
        wl = "CN" in (ta, tb) or rng.random() > 0.08
        for x, y in ((a, b), (b, a)):
            if site[x]["type"] != "CN":
                link[f"{x}>{y}"] = {"tx": x, "rx": y, "status": st, "wireless": wl}
    return site, link


def build(rng, site, link, dn, cn):
    t = Topology()
    obj = {}
    order = list(site)
    rng.shuffle(order)
    for n in order:
        s = site[n]
        obj[n] = w.site(s["type"], w.at(*s["pos"], 5.0), cn if s["type"] == "CN" else dn, s["status"], n)
        t.add_site(obj[n])
    order = list(link)
    rng.shuffle(order)
    for l in order:
        v = link[l]
        t.add_link(Link(obj[v["tx"]], obj[v["rx"]], status_type=ST[v["status"]], is_wireless=v["wireless"]))
    return t


def settings(rng, e, left, dn, cn, demand=(0.05, 0.3, 0.7)):
    p = OptimizerParams(
        device_list=[dn, cn], demand=rng.choice(demand), pop_capacity=rng.choice([0.4, 1.0, 1.0, 10.0, 10.0]), oversubscription=rng.choice([1.0, 2.0]),
        budget=(1e6 if rng.random() < 0.5 else float(rng.randint(2000, 20000))) if left else 0.0,
        number_of_extra_pops=rng.choice([1, 2]) if e["extra"] else 0, enable_legacy_redundancy_method=e["legacy"], redundancy_level=RedundancyLevel[e["level"]],
        number_of_channels=rng.choice([1, 1, 1, 2]), always_active_pops=rng.random() < 0.7, maximum_number_hops=rng.choice([2, 15, 15]),
        backhaul_link_redundancy_ratio=rng.choice([0.0, 0.2, 0.5]), maximize_common_bandwidth=rng.random() < 0.15,
        dn_dn_sector_limit=rng.choice([1, 2]), maximum_eirp=rng.choice([None, 30.0]),
        min_cost_rel_stop=1e-9, max_coverage_rel_stop=1e-9, pop_proposal_rel_stop=1e-9, redundancy_rel_stop=1e-9, interference_rel_stop=1e-9,
    )
    return p


def course(rng, item):
    """One forced course of planning on a random network."""
    e, left, hist = item["e"], item["left"], item["hist"]
    dn, cn = w.device("DN_A", "DN", nodes=rng.choice([2, 2, 3]), node_capex=250.0, horizontal_scan_range=rng.choice([90.0, 120.0])), w.device("CN_A", "CN", node_capex=150.0)
    site, link = raw(rng, e["pops"])
    # planning that never gets past the minimum-cost step: for want of POPs or not
    p = settings(rng, e, left, dn, cn, (0.05, 0.3, 0.7) if not hist or hist[-1][0] != "cost" else (0.3, 0.7, 0.7, 1.1))
    t = build(rng, site, link, dn, cn)
    st, v = attempt(prepare_topology_for_optimization, t, p)
    if st != "ok" or not t.demand_sites:
        return None
    answers = {}
    for step, a in hist:
        answers.setdefault(step, []).append(a)
    asked = []
    with watched(t, p, asked, answers):
        st, v = attempt(to.optimize_topology, t, p, seconds=100)
    base = {"e": e, "asked": asked, "why": str(v) if st != "ok" else "",  "net": {"site": site, "link": link or {"none": 0}}}
    if st == "OptimizerException":
        msg = str(v).lower()
        end = "timed-out" if "timed" in msg else "refused" if not any(r["step"] == "cost" for r in asked) else "too-few-pops" if "pop" in msg else "infeasible"
    elif st == "ok":
        end = "planned"
    else:
        return {"kind": "crash", "text": f"{st}: {v}", **base}
    # aiming the sectors anew may take another node: not counted
    spent = [r["capex"] for r in asked if r["step"] in ("coverage", "redundancy", "interference")]
    within = any(s["status"] in ACTIVE for s in site.values()) or not spent or spent[-1] <= max(p.budget, spent[0]) + 1e-6
    return {"kind": "history", **base, "end": end, "within": bool(within), "after": snap(t), "live": live(t), "wants": wants(t), "feed": feed(t, p)}


def feed(t, p):
    """What could leave the POPs, and what is asked of them."""
    nm, sn = names(t)
    ok = ("PROPOSED", "EXISTING", "CANDIDATE")
    out = {"none": []}
    for l in t.links.values():
        if l.tx_site.site_type.name == "POP" and all(s in ok for s in (l.status_type.name, l.tx_site.status_type.name, l.rx_site.status_type.name)):
            by = "wire " + nm[l.rx_site.site_id] if not l.is_wireless else sn[l.tx_sector.sector_id] if l.tx_sector and l.rx_sector else None
            if by is not None:
                out.setdefault(nm[l.tx_site.site_id], []).append({"by": by, "most": float(l.capacity)})
    return {"limit": float(p.pop_capacity), "need": float(sum(d.demand for d in t.demand_sites.values())), "pop": out}


def live(t):
    nm, _ = names(t)
    return sorted(f"{nm[l.tx_site.site_id]}>{nm[l.rx_site.site_id]}" for l in t.links.values() if l.capacity > 0)


def wants(t):
    nm, _ = names(t)
    return sorted({nm[s.site_id] for d in t.demand_sites.values() for s in d.connected_sites})


def order(rng, k):
    """The same network entered in another order gives the same plan."""
    dn, cn = w.device("DN_A", "DN", nodes=rng.choice([2, 2, 3]), node_capex=250.0, horizontal_scan_range=rng.choice([90.0, 120.0])), w.device("CN_A", "CN", node_capex=150.0)
    site, link = raw(rng, True)
    e = {"pops": True, "extra": 0, "legacy": rng.random() < 0.5, "level": rng.choice(["NONE", "LOW", "MEDIUM"])}
    p = settings(rng, e, True, dn, cn)
    res = []
    for _ in range(2):
        t = build(rng, site, link, dn, cn)
        st, v = attempt(lambda: (prepare_topology_for_optimization(t, p), to.optimize_topology(t, p)), seconds=100)
        if st == "ok":
            x = snap(t)
            res.append({"site": {n: s["status"] for n, s in x["site"].items()}, "link": {n: s["status"] for n, s in x["link"].items()}})
        else:
            res.append({"site": {"none": st}, "link": {"none": st}})
    return {"kind": "order", "first": res[0], "second": res[1], "net": {"site": site, "link": link or {"none": 0}}}


def gates(rng):
    dn, cn = w.device("DN_A", "DN"), w.device("CN_A", "CN")
    for pops, extra, uni, man, cns in itertools.product([False, True], [0, 1, 3], [False, True], [False, True], [False, True]):
        t = Topology()
        if pops:
            t.add_site(w.site("POP", w.at(0, 0, 5.0), dn, rng.choice(["CANDIDATE", "EXISTING"]), "P"))
        t.add_site(w.site("DN", w.at(100, 0, 5.0), dn, "CANDIDATE", "D"))
        if cns:
            t.add_site(w.site("CN", w.at(100, 50, 5.0), cn, "CANDIDATE", "C"))
        p = OptimizerParams(device_list=[dn, cn], number_of_extra_pops=extra, enable_uniform_demand=uni, enable_manual_demand=man, demand_connection_radius=50.0, demand_spacing=50.0)
        st, v = attempt(to.pre_opt_check, t, p)
        yield {"kind": "gate", "e": {"pops": pops, "extra": extra, "demand": uni or man, "cns": cns}, "refused": st == "OptimizerException"} if st in ("ok", "OptimizerException") else {"kind": "crash", "text": f"{st}: {v}"}


CFG = "SPECIFICATION Spec\nINVARIANT Sound Patient Redundant Forgiving\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    rc, es, dist, gen, rest = tlc.edges(None, "PipelineMC", CFG, workers=8)
    if rc != 0:
        raise tlc.TlcError(rest)
    ctx.model(dist, gen, "PipelineMC")
    es.sort(key=str)
    ctx.notes["model_courses"] = len(es)
    rng = ctx.sub("pick")
    # short and long courses in equal measure
    size = {}
    for e in es:
        size.setdefault((len(e["hist"]), e["end"], str(e["e"])), []).append(e)
    n = ctx.pick(360, 8000)
    groups = list(size.values())
    items = [rng.choice(rng.choice(groups)) for _ in range(n)]
    # courses as the solver makes them
    free = [{"e": {"pops": True, "extra": x, "legacy": lv == "", "level": lv or "LOW"}, "left": True, "hist": []} for x in (0, 1) for lv in ("", "LOW", "MEDIUM", "HIGH", "NONE")]
    items += [free[k % len(free)] for k in range(ctx.pick(100, 3000))]
    cases = [c for c in ctx.pmap(course, items) if c]
    cases += [c for c in ctx.pmap(order, list(range(ctx.pick(50, 1000)))) if c]
    cases += list(gates(rng))
    for c in cases:
        ctx.nontrivial({k: v for k, v in c.items() if k in ("e", "net", "refused")} | {"answers": [(r["step"], r["answer"]) for r in c.get("asked", [])]})
    ends = {}
    for c in cases:
        ends[c.get("end", c["kind"])] = ends.get(c.get("end", c["kind"]), 0) + 1
    ctx.notes["ends"] = ends
    ctx.judge("Pipeline", cases, [f"{c['kind']}#{k}" for k, c in enumerate(cases)], op="PipelineFails")
