"""M02: the most a budget buys (spec/Capacity.tla, CoverFails).

Small prepared networks, a budget and a list of links that must carry nothing
are handed to the real maximum coverage model, with the exact solver stand-in.
The specification enumerates every legal and affordable set of sites and every
polarity colouring and solves the flow of each by its own simplex: nothing
affordable delivers more than the outcome (or, with common bandwidth, serves
everybody who can be connected with more), and the outcome is realisable.
"""
from harness import plans
from harness.core import attempt
from terragraph_planner.optimization.ilp_models.coverage_optimization import MaxCoverageNetwork

LEVEL = "model_checking"
RULE = "a distinct prepared network with prices, a budget, forbidden links and the plan that was chosen"
ASSUMPTIONS = ["the solver stand-in (HiGHS) is exact on these small problems; the specification judges the planner's outcome, not the solver's claims"]


def one(rng, item):
    k, common = item
    if k % 3 == 0:
        plan = plans.random_plan(rng, pops=(1, 1), dns=(1, 2), cns=(1, 2), mode="candidate", colocate=0.2, caps=(0.5, 1.0, 1.0, 1.8, 2.0), pop_demand=0.3)
    elif k % 3 == 1:
        plan = plans.random_plan(rng)
    else:
        plan = plans.random_plan(rng, mode="mostly", colocate=0.25, cns=(0, 1))
    if not plan["link"] or not plan["dem"]:
        return None
    cfg = plans.random_cfg(rng, plan, common=common, budget=rng.choice([0.0, 500.0, 1000.0, 2000.0, 3000.0, 4000.0, 6000.0, 10000.0]))
    b = plans.Built(plan, cfg, rng)
    p = b.params()
    blocked = sorted(l for l in plan["link"] if rng.random() < rng.choice([0.0, 0.0, 0.1]))
    rec = {**b.record(), "blocked": blocked, "cov": 0.0}
    st, v = attempt(MaxCoverageNetwork, b.t, p, {(b.site[plan["link"][l]["tx"]].site_id, b.site[plan["link"][l]["rx"]].site_id) for l in blocked}, seconds=60)
    if st == "OptimizerException" and "positive capacity" in str(v):
        return None
    if st != "ok":
        return {"kind": "crash", "what": "MaxCoverageNetwork", "text": f"{st}: {v}", **rec}
    st, sol = attempt(v.solve, seconds=60)
    if st != "ok":
        return {"kind": "crash", "what": "solve", "text": f"{st}: {sol}", **rec}
    return {"kind": "cover", **rec, "out": [b.decisions(sol)] if sol is not None else []}


def run(ctx):
    n = ctx.pick(1500, 15000)
    cases = ctx.pmap(one, [(k, k % 5 == 4) for k in range(n)])
    plans.judge(ctx, cases, "CoverFails")
