"""M05: redundancy at the least cost (spec/Redundancy.tla).

Small backhaul networks with a finished base and candidate DNs are handed to
the real redundancy model and to the heuristic that narrows its links down.
The specification enumerates every set of additional DNs and every polarity
colouring and works out by its own simplex how many units each DN can get: the
reported shortage must be the least possible, the cost the least that keeps to
it, and the narrowed links must keep the disjoint paths.
"""
from harness import plans
from harness.core import attempt
from terragraph_planner.optimization.ilp_models.redundancy_optimization import RedundantNetwork, compute_candidate_edges_for_redundancy
from terragraph_planner.optimization.structs import RedundancyParams

LEVEL = "model_checking"
RULE = "a distinct base network with candidate DNs, node capacities and the DNs that were added"
ASSUMPTIONS = ["the solver stand-in (HiGHS) is exact on these small problems; the specification judges the planner's outcome, not the solver's claims"]

LEVELS = [(2, 2, 2), (1, 1, 2), (2, 1, 2), (2, 1, 4), (3, 1, 3)]


def network(rng):
    mode = rng.choice(["mixed", "mostly", "mostly", "candidate"])
    plan = plans.random_plan(rng, pops=(1, 2), dns=(2, 4), cns=(0, 1), mode=mode, colocate=rng.choice([0.0, 0.15]), density=rng.choice([0.5, 0.8, 0.95]),
                             caps=(0.0, 1.0, 1.0, 1.0, 1.8), active_links=0.8, upgrade=rng.choice([0.0, 0.8]))
    if rng.random() < 0.15:
        for n, s in plan["site"].items():
            s["pos"] = [s["pos"][0], 0] if len({t["pos"][0] for t in plan["site"].values()}) == len(plan["site"]) else s["pos"]
    return plan


def one(rng, k):
    plan = network(rng)
    if not plan["link"] or not plan["dem"]:
        return None
    cfg = plans.random_cfg(rng, plan, common=rng.random() < 0.2)
    b = plans.Built(plan, cfg, rng)
    p = b.params()
    red = dict(zip(("pop", "dn", "sink"), rng.choice(LEVELS)))
    only, arg = ["all"], None
    if rng.random() < 0.3:
        only = [l for l, v in plan["link"].items() if v["status"] in plans.ACTIVE or rng.random() < 0.8]
        arg = {(b.site[plan["link"][l]["tx"]].site_id, b.site[plan["link"][l]["rx"]].site_id) for l in only}
    rec = {**b.record(), "blocked": [], "red": red, "only": only}
    st, v = attempt(RedundantNetwork, b.t, p, RedundancyParams(pop_node_capacity=red["pop"], dn_node_capacity=red["dn"], sink_node_capacity=red["sink"]), arg, seconds=60)
    if st == "OptimizerException" and "positive capacity" in str(v):
        return None
    if st != "ok":
        return {"kind": "crash", "what": "RedundantNetwork", "text": f"{st}: {v}", **rec}
    st, sol = attempt(v.solve, seconds=60)
    if st != "ok":
        return {"kind": "crash", "what": "solve", "text": f"{st}: {sol}", **rec}
    if sol is None:
        return {"kind": "red", **rec, "out": []}
    nm, sn = b.name, b.sname
    return {"kind": "red", **rec, "out": [{
        "on": sorted(nm[s] for s, x in sol.site_decisions.items() if x == 1),
        "odd": sorted(nm[s] for s, x in sol.odd_site_decisions.items() if x == 1),
        "even": sorted(nm[s] for s, x in sol.even_site_decisions.items() if x == 1),
        "secs": sorted(sn[s[1]] for s, x in sol.sector_decisions.items() if x == 1),
        "chan": {"none": -1, **{sn[s[1]]: int(x) for s, x in sol.channel_decisions.items()}},
        "links": sorted(f"{nm[i]}>{nm[j]}" for (i, j), x in sol.link_decisions.items() if x == 1),
        "short": {"none": 0.0, **{nm[d]: float(x) for d, x in sol.shortage_decisions.items()}},
        "objective": float(sol.objective_value), "cost": float(sol.cost),
    }]}


def narrow(rng, k):
    plan = network(rng)
    kpop, kdn = rng.choice([(4, 2), (4, 2), (2, 2), (1, 1), (0, 2), (3, 0)])
    cfg = plans.random_cfg(rng, plan)
    b = plans.Built(plan, cfg, rng)
    rec = {**b.record(), "kpop": kpop, "kdn": kdn}
    st, v = attempt(compute_candidate_edges_for_redundancy, b.t, float(kpop), float(kdn), seconds=60)
    if st != "ok":
        return {"kind": "crash", "what": "candidate edges", "text": f"{st}: {v}", **rec}
    return {"kind": "narrow", **rec, "edges": sorted(f"{b.name[i]}>{b.name[j]}" for i, j in v)}


def run(ctx):
    plans.judge(ctx, ctx.pmap(one, list(range(ctx.pick(500, 6000)))), "RedFails", module="Redundancy")
    cases = ctx.pmap(narrow, list(range(ctx.pick(500, 6000))))
    for c in cases:
        ctx.nontrivial(c)
    ctx.judge("Redundancy", cases, [f"{c['kind']}-n#{k}" for k, c in enumerate(cases)], op="NarrowFails")
