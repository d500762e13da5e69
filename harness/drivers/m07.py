"""M07: where additional POPs go (spec/ExtraPops.tla).

Small candidate networks that ask for additional POPs are handed to the real
POP proposal model, with the exact solver stand-in, and to the step that adds
the POPs found.  The specification enumerates every set of candidate DNs that
could become POPs, solves what each could deliver over a single hop, and says
what the network must look like once the chosen DNs have a POP beside them.
"""
from harness import plans
from harness.core import attempt
from harness.world import LocationType
from terragraph_planner.common.configuration.enums import SiteType
from terragraph_planner.optimization.ilp_models.pop_proposal_optimization import POPProposalNetwork, add_duplicate_pop_to_dn_site
from terragraph_planner.optimization.structs import OptimizationSolution

LEVEL = "model_checking"
RULE = "a distinct prepared network with the number of POPs asked for and the DNs chosen, or a network with the DNs that got a POP"
ASSUMPTIONS = ["the solver stand-in (HiGHS) is exact on these small problems; the specification judges the planner's outcome, not the solver's claims"]


def network(rng):
    mode = rng.choice(["candidate", "mixed", "mixed", "mostly"])
    return plans.random_plan(rng, pops=rng.choice([(0, 1), (1, 1), (0, 2)]), dns=(1, 4), cns=(1, 3), mode=mode, colocate=rng.choice([0.0, 0.2, 0.35]), demands=(0, 2), pop_demand=0.3,
                             density=rng.choice([0.4, 0.65, 0.9]), caps=(0.0, 0.5, 1.0, 1.0, 1.8, 2.0))


def snap(t):
    return {
        "site": {n: {
            "type": s.site_type.name, "at": f"{s.latitude:.9f},{s.longitude:.9f},{s.altitude}", "sku": s.device.device_sku, "status": s.status_type.name, "where": s.location_type.name,
            "building": -1 if s.building_id is None else s.building_id, "subs": s.number_of_subscribers or 0, "label": s.name} for n, s in t.sites.items()},
        "sec": {n: {"site": k.site.site_id, "node": k.node_id, "pos": k.position_in_node, "az": k.ant_azimuth, "chan": k.channel, "status": k.status_type.name} for n, k in t.sectors.items()},
        "link": {n: {
            "tx": v.tx_site.site_id, "rx": v.rx_site.site_id, "ts": v.tx_sector.sector_id if v.tx_sector else "none", "rs": v.rx_sector.sector_id if v.rx_sector else "none",
            "wired": not v.is_wireless, "status": v.status_type.name, "conf": -1.0 if v.confidence_level is None else v.confidence_level,
            "cap": float(v.capacity), "rsl": float(v.link_budget.rsl_dbm), "mcs": v.link_budget.mcs_level or 0} for n, v in t.links.items()},
        "dem": {n: [s.site_id for s in d.connected_sites] for n, d in t.demand_sites.items()},
    }


def choice(rng, k):
    plan = network(rng)
    if not plan["link"] or not plan["dem"]:
        return None
    cfg = plans.random_cfg(rng, plan, common=rng.random() < 0.2, extra=rng.choice([1, 1, 2, 3]))
    b = plans.Built(plan, cfg, rng)
    p = b.params()
    rec = {**b.record(), "blocked": [], "cov": 0.0}
    st, v = attempt(POPProposalNetwork, b.t, p, seconds=60)
    if st == "OptimizerException" and "positive capacity" in str(v):
        return None
    if st != "ok":
        return {"kind": "crash", "what": "POPProposalNetwork", "text": f"{st}: {v}", **rec}
    st, sol = attempt(v.propose_pops, seconds=60)
    if st != "ok":
        return {"kind": "crash", "what": "propose", "text": f"{st}: {sol}", **rec}
    out = {"kind": "choice", **rec, "out": [b.decisions(sol)] if sol is not None else []}
    return out


def copy(rng, k):
    plan = network(rng)
    if not plan["link"] or not plan["dem"]:
        return None
    for v in plan["link"].values():
        v["rsl"] = round(rng.uniform(-70, -30), 1)
    for s in plan["site"].values():
        s["where"] = rng.choice(["ROOFTOP", "STREET_LEVEL"])
        if s["where"] == "ROOFTOP":
            s["building"] = rng.choice([3, 7])
    b = plans.Built(plan, plans.random_cfg(rng, plan, extra=2), rng)
    for v in b.t.links.values():
        v.confidence_level = rng.choice([None, 0.3, 0.8, 1.0])
        v.link_budget.mcs_level = rng.choice([0, 4, 9])
    for v in b.t.sectors.values():
        v.channel = rng.choice([-1, 0, 1])
    lone = [n for n, s in plan["site"].items() if s["type"] == "DN" and s["status"] == "CANDIDATE"
            and not any(q["pos"] == s["pos"] and (q["type"] == "POP" or q["status"] in plans.ACTIVE) for m, q in plan["site"].items() if m != n)]
    chosen, places = [], set()
    for n in rng.sample(lone, len(lone)):
        q = tuple(plan["site"][n]["pos"])
        if q not in places and rng.random() < 0.7:
            chosen.append(n)
            places.add(q)
    on = {o.site_id: int(n in chosen or (o.status_type.name not in ("UNAVAILABLE", "UNREACHABLE") and (plan["site"][n]["type"] != "DN" or plan["site"][n]["status"] != "CANDIDATE") and rng.random() < 0.7)) for n, o in b.site.items()}
    if rng.random() < 0.3:
        on = {i: v for i, v in on.items() if v}
    before = snap(b.t)
    sol = OptimizationSolution(on, {}, {}, {}, {}, {}, {}, {}, {}, 0.0, 0)
    st, v = attempt(add_duplicate_pop_to_dn_site, b.t, sol, seconds=20)
    if st != "ok":
        return {"kind": "crash", "what": "copy", "text": f"{st}: {v}", "before": before, "on": sorted(on)}
    return {"kind": "copy", "before": before, "after": snap(b.t), "chosen": sorted(b.site[n].site_id for n in chosen)}


def run(ctx):
    cases = ctx.pmap(choice, list(range(ctx.pick(1500, 15000))))
    plans.judge(ctx, cases, "ChoiceFails", module="ExtraPops")
    cases = ctx.pmap(copy, list(range(ctx.pick(500, 5000))))
    plans.judge(ctx, cases, "CopyFails", module="ExtraPops")
