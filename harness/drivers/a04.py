"""A04: second routes and demand classes (spec/Failures.tla)."""
from harness import graphs

LEVEL = "model_checking"
RULE = "a distinct network whose demand classes were judged"


def run(ctx):
    cases = []
    todo = list(graphs.exhaustive(ctx)) + graphs.small_nets(ctx, ctx.pick(600, 8000), "n", oneway=0.1, demands=(2, 5))
    for net, r in todo:
        g = graphs.active_graph(r)
        cases.append(graphs.routes_case(net, r, g))
        # analyses that follow on the same graph must see the same network
        cases.append(graphs.edge_case(net, r, g))
        ctx.nontrivial(str(net))
    ctx.judge("Failures", cases, ["network"] * len(cases))
    ctx.notes["double_nonempty"] = sum(1 for c in cases if c.get("double"))
