"""M04: what a finished network delivers to everyone at once (spec/Capacity.tla, FlowFails).

Small finished networks (proposed, existing and leftover candidate elements,
redundant links, co-located sites, wired links) are handed to the real common
bandwidth model.  The specification works out who is connected, solves the flow
by its own simplex, and requires the reported bandwidth to be the most that
every connected demand can have at once and every flow to be realisable over
active, non-redundant elements only.
"""
from harness import plans
from harness.core import attempt
from terragraph_planner.optimization.ilp_models.flow_optimization import MaxFlowNetwork

LEVEL = "model_checking"
RULE = "a distinct finished network with its capacities, demand and the common bandwidth that was reported"
ASSUMPTIONS = ["the solver stand-in (HiGHS) is exact on these small problems; the specification judges the planner's outcome, not the solver's claims"]


def one(rng, k):
    mode = rng.choice(["active", "active", "mostly", "mixed"])
    plan = plans.random_plan(rng, pops=(1, 2), dns=(1, 4), cns=(0, 3), mode=mode, colocate=0.1, active_links=0.9, polar=rng.random() < 0.7, wired=0.15)
    if not plan["link"] or not plan["dem"]:
        return None
    for v in plan["link"].values():
        if v["status"] == "PROPOSED" and rng.random() < 0.12:
            v["spare"] = True
    cfg = plans.random_cfg(rng, plan)
    b = plans.Built(plan, cfg, rng)
    rec = {**b.record(), "blocked": [], "spare": sorted(l for l, v in plan["link"].items() if v.get("spare"))}
    st, v = attempt(MaxFlowNetwork, b.t, b.params(), seconds=60)
    if st == "OptimizerException" and "positive capacity" in str(v):
        return None
    if st != "ok":
        return {"kind": "crash", "what": "MaxFlowNetwork", "text": f"{st}: {v}", **rec}
    st, sol = attempt(v.solve, seconds=60)
    if st != "ok":
        return {"kind": "crash", "what": "solve", "text": f"{st}: {sol}", **rec}
    if sol is None:
        return {"kind": "flow", **rec, "out": []}
    arc = lambda p: f"{b.name[p[0]]}>{b.name[p[1]]}"  # noqa: E731
    return {"kind": "flow", **rec, "out": [{
        "flow": {"none": 0.0, **{arc(p): float(f) for p, f in sol.flow_decisions.items()}},
        "tdm": {"none": 0.0, **{arc(p): float(f) for p, f in sol.tdm_decisions.items()}},
        "buffer": float(sol.buffer_decision), "odd": [],
        "connected": sorted(b.name[d] for d in sol.connected_demand_sites),
    }]}


def run(ctx):
    n = ctx.pick(2000, 20000)
    plans.judge(ctx, ctx.pmap(one, list(range(n))), "FlowFails")
