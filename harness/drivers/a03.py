"""A03: routing policies use least-cost routes (spec/Failures.tla)."""
from harness import graphs

LEVEL = "model_checking"
RULE = "a distinct network with a routing policy"


def run(ctx):
    cases = []
    todo = list(graphs.exhaustive(ctx))[::2] + graphs.small_nets(ctx, ctx.pick(300, 4000), "n", oneway=0.1, mcs=(0, 14))
    for net, r in todo:
        g = graphs.active_graph(r)
        for p in ("SHORTEST_PATH", "MCS_COST_PATH", "DPA_PATH"):
            cases.append(graphs.routing_case(net, r, g, p))
        ctx.nontrivial(str(net))
    ctx.judge("Failures", cases, ["network"] * len(cases))
    ctx.notes["routed_nonempty"] = sum(1 for c in cases if c.get("used"))
