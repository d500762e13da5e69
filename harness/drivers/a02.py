"""A02: selection of adversarial links (spec/Failures.tla)."""
from harness import graphs

LEVEL = "model_checking"
RULE = "a distinct network with a quota of adversarial links"


def run(ctx):
    cases, keys = [], []
    for net, r in graphs.exhaustive(ctx):
        cases.append(graphs.selection_case(net, r, 2))
        cases.append(graphs.adversarial_case(net, r, 20))
    kw = dict(statuses=("PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE"), dns=(2, 5), colocate=0.25)
    for i, (net, r) in enumerate(graphs.small_nets(ctx, ctx.pick(400, 5000), "n", **kw)):
        rng = ctx.sub(f"q{i}")
        cases.append(graphs.selection_case(net, r, rng.choice([0, 1, 2, 3, 5, 20])))
        cases.append(graphs.adversarial_case(net, r, rng.choice([0, 10, 20, 40, 100])))
        ctx.nontrivial(str(net))
    ctx.judge("Failures", cases, ["network"] * len(cases))
    ctx.notes["chosen_nonempty"] = sum(1 for c in cases if c.get("res"))
