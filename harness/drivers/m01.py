"""M01: the cheapest network that covers enough (spec/Capacity.tla, CostFails).

Small prepared networks (up to two POPs, three DNs, two CNs, co-located sites,
wired and out-of-sector links, given and dead elements) are handed to the real
cost model, with the exact solver stand-in.  The specification enumerates every
legal set of sites and every polarity colouring and solves the flow of each by
its own simplex: the reported objective must be the least cost that covers the
required share, and every flow, link, sector and polarity must be realisable.
"""
from harness import plans
from harness.core import attempt
from terragraph_planner.optimization.ilp_models.cost_optimization import MinCostNetwork

LEVEL = "model_checking"
RULE = "a distinct prepared network with prices, a required coverage and the plan that was chosen"
ASSUMPTIONS = ["the solver stand-in (HiGHS) is exact on these small problems; the specification judges the planner's outcome, not the solver's claims"]


def one(rng, item):
    k, common = item
    if k % 3 == 0:
        plan = plans.random_plan(rng, pops=(1, 1), dns=(1, 2), cns=(1, 2), mode="candidate", colocate=0.2, caps=(0.5, 1.0, 1.0, 1.8, 2.0), pop_demand=0.3)
    elif k % 3 == 1:
        plan = plans.random_plan(rng)
    else:
        plan = plans.random_plan(rng, mode="mostly", colocate=0.25, cns=(0, 1))
    if not plan["link"] or not plan["dem"]:
        return None
    cfg = plans.random_cfg(rng, plan, common=common)
    cov = rng.choice([1.0, 1.0, 0.9, 0.7, 0.5])
    b = plans.Built(plan, cfg, rng)
    p = b.params()
    rec = {**b.record(), "blocked": [], "cov": cov}
    st, v = attempt(MinCostNetwork, b.t, p, seconds=60)
    if st == "OptimizerException" and "positive capacity" in str(v):
        return None
    if st != "ok":
        return {"kind": "crash", "what": "MinCostNetwork", "text": f"{st}: {v}", **rec}
    if rng.random() < 0.25:  # the pipeline asks for more first, with the same model
        st, sol = attempt(v.solve, min(1.0, cov + rng.choice([0.1, 0.2, -0.2])), seconds=60)
        if st != "ok":
            return {"kind": "crash", "what": "solve", "text": f"{st}: {sol}", **rec}
    st, sol = attempt(v.solve, cov, seconds=60)
    if st != "ok":
        return {"kind": "crash", "what": "solve", "text": f"{st}: {sol}", **rec}
    return {"kind": "cost", **rec, "out": [b.decisions(sol)] if sol is not None else []}


def run(ctx):
    n = ctx.pick(1500, 15000)
    cases = ctx.pmap(one, [(k, k % 5 == 4) for k in range(n)])
    plans.judge(ctx, cases, "CostFails")
