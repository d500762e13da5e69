"""A01: demands lost by each single failure (spec/Failures.tla)."""
from harness import graphs

LEVEL = "model_checking"
RULE = "a distinct network (sites, links, statuses, demand attachment) judged"


def run(ctx):
    cases, keys = [], []
    todo = list(graphs.exhaustive(ctx)) + list(graphs.directed(ctx, ctx.pick(0.6, 1))) + graphs.small_nets(ctx, ctx.pick(500, 6000), "n", oneway=0.15)
    for net, r in todo:
        g = graphs.active_graph(r)
        before = graphs.snap(g)
        for f in (graphs.served_case, graphs.edge_case, graphs.site_case):
            cases.append(f(net, r, g))
            keys.append("network")
        if graphs.snap(g) != before:
            cases.append(graphs.crash("graph_changed_by_failure_analysis", net, ""))
            keys.append("network")
        ctx.nontrivial(str(net))
    ctx.judge("Failures", cases, keys)
