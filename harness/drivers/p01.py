"""P01: hop counts and the marking of unreachable parts (spec/Marking.tla)."""
import itertools

from harness import graphs, nets, world as w
from harness.core import attempt
from harness.world import ST, Sector
from terragraph_planner.optimization import topology_operations as ops

LEVEL = "model_checking"
RULE = "a distinct network with its statuses and hop limit"


def with_sectors(net, r, rng):
    out = {}
    for n, o in r.site.items():
        for k in range(rng.randint(0, 2)):
            s = net["site"][n]["status"]
            st = rng.choice(["CANDIDATE", "PROPOSED", "EXISTING"]) if s in nets.ACTIVE else s
            x = Sector(o, k, 0, 90.0 * k, status_type=ST[st])
            r.t.add_sector(x)
            out[f"{n}/{k}"] = (x, {"site": n, "status": st})
    return out


def shape(r):
    return (sorted(r.t.sites), sorted(r.t.links), sorted(r.t.sectors), sorted(r.t.demand_sites))


def mark_case(net, r, rng, limit):
    sec = with_sectors(net, r, rng)
    b = shape(r)

    def after():
        return {"site": r.sites_status(), "link": r.links_status() or {"none": "x"}, "sector": {k: x.status_type.name for k, (x, _) in sec.items()} or {"none": "x"}}

    st, v = attempt(ops.mark_unreachable_components, r.t, limit)
    if st != "ok":
        return graphs.crash("mark_unreachable_components", net, f"{st}: {v}")
    a = after()
    st, v = attempt(ops.mark_unreachable_components, r.t, limit)
    if st != "ok":
        return graphs.crash("mark_unreachable_components_again", net, f"{st}: {v}")
    return {"kind": "mark", "net": net, "max": limit or 0, "sector": {k: d for k, (_, d) in sec.items()}, "after": a, "again": after(), "same": b == shape(r)}


def hop_case(net, r, flt):
    st, v = attempt(ops.hops_from_pops, r.t, None if flt is None else {ST[s] for s in flt})
    if st != "ok":
        return graphs.crash("hops_from_pops", net, f"{st}: {v}")
    f = {ST[s] for s in (flt or w.STATUS)}
    s2, v2 = attempt(ops.get_reachable_demand_sites, r.t, f)
    if s2 != "ok":
        return graphs.crash("get_reachable_demand_sites", net, f"{s2}: {v2}")
    return {"kind": "hops", "net": net, "filter": list(flt or w.STATUS), "hops": [[r.nm(k), x] for k, x in sorted(v.items())], "demands": sorted(map(r.nm, v2))}


def run(ctx):
    cases, keys = [], []
    N = ctx.pick(900, 9000)
    for i in range(N):
        rng = ctx.sub(f"n{i}")
        mix = rng.choice([
            ("CANDIDATE",), ("CANDIDATE", "CANDIDATE", "EXISTING", "PROPOSED"),
            tuple(w.STATUS) + ("CANDIDATE",) * 4,
        ])
        net = nets.random_net(
            rng, pops=(0, 2), dns=(2, 7), cns=(0, 2), density=rng.choice([0.2, 0.35, 0.5]), statuses=mix, oneway=rng.choice([0, 0.4]),
            wired=0.2, demands=(1, 3), link_prefer=rng.choice([None, ["CANDIDATE", "PROPOSED"]]),
        )
        if not net["link"]:
            continue
        r = nets.Real(net, rng)
        cases.append(hop_case(net, r, rng.choice([None, nets.REACH, nets.ACTIVE, ("CANDIDATE",)])))
        cases.append(mark_case(net, r, rng, rng.choice([None, None, 0, 1, 2, 3])))
        ctx.nontrivial(str(net))
    # long chains with few short cuts
    for i in range(ctx.pick(60, 600)):
        rng = ctx.sub(f"l{i}")
        net = nets.random_net(rng, pops=(1, 2), dns=(10, 18), cns=(0, 2), density=rng.choice([0.0, 0.02, 0.05]), wired=0.1, oneway=0.05,
                              statuses=rng.choice([("CANDIDATE",), ("CANDIDATE",) * 12 + tuple(w.STATUS)]), demands=(1, 3), chain=True)
        r = nets.Real(net, rng)
        cases.append(hop_case(net, r, None))
        cases.append(mark_case(net, r, rng, rng.choice([None, 4, 6, 9, 10, 11, 12, 15])))
        ctx.nontrivial(str(net))
    # every direction pattern over four sites
    for k, (net, _) in enumerate(graphs.directed(ctx, ctx.pick(0.4, 1))):
        net = {**net, "site": {n: {**s, "status": "EXISTING" if n == "p0" else "CANDIDATE"} for n, s in net["site"].items()},
               "link": {l: {**x, "status": "CANDIDATE"} for l, x in net["link"].items()}}
        if not net["link"]:
            continue
        r = nets.Real(net, ctx.sub(f"d{k}"))
        cases.append(hop_case(net, r, nets.REACH))
        cases.append(mark_case(net, r, ctx.sub(f"e{k}"), (None, 1, 2)[k % 3]))
    ctx.judge("Marking", cases, ["network"] * len(cases))
    ctx.notes["marked"] = sum(1 for c in cases if c["kind"] == "mark" and "UNREACHABLE" in str(c["after"]))
