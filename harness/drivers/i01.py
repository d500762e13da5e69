"""I01: who interferes with whom, and by how much (spec/Radio.tla)."""
from harness.core import attempt
from harness.radio import RadioNet, planning
from terragraph_planner.optimization.topology_interference import (
    analyze_interference,
    compute_link_interference,
    compute_link_net_gain_map,
)
from terragraph_planner.optimization.topology_preparation import add_link_capacities

LEVEL = "model_checking"
RULE = "a distinct network with at least one active wireless link whose SINR was computed"


def case(rng, _k):
    g = RadioNet(rng)
    eirp = rng.choice([None, 40.0, 30.0, 55.0])
    p = planning(rng, g.devs, maximum_eirp=eirp)
    out = []
    st, v = attempt(add_link_capacities, g.t, p, with_deviation=True)
    if st != "ok":
        return [{"kind": "crash", "what": "add_link_capacities", "text": f"{st}: {v}", **g.record()}]
    for o in g.lk.values():  # powers as after power control
        if o.is_wireless and rng.random() < 0.5 and o.tx_power > -1e9:
            d = rng.choice([1.0, 5.0, 12.0])
            o.tx_power -= d
            o.rsl_dbm -= d
        elif rng.random() < 0.05:
            o.tx_power = o.rsl_dbm = float("-inf")
    if rng.random() < 0.5:
        st, v = attempt(analyze_interference, g.t)
    else:
        st, v = attempt(lambda: analyze_interference(g.t, compute_link_net_gain_map(g.t)))
    if st != "ok":
        out.append({"kind": "crash", "what": "analyze_interference", "text": f"{st}: {v}", **g.record()})
    else:
        out.append({"kind": "sinr", **g.record()})
    st, v = attempt(compute_link_interference, g.t, eirp)
    if st != "ok":
        out.append({"kind": "crash", "what": "compute_link_interference", "text": f"{st}: {v}", **g.record()})
    else:
        out.append({"kind": "worst", "eirp": "none" if eirp is None else eirp,
                    "worst": {"none": 0.0, **{k: float(v[(o.tx_site.site_id, o.rx_site.site_id)]) for k, o in g.lk.items()}}, **g.record()})
    return out


def run(ctx):
    cases = [c for cs in ctx.pmap(case, range(ctx.pick(1500, 15000))) for c in cs]
    for c in cases:
        if c["kind"] == "sinr" and any(v["status"] in ("PROPOSED", "EXISTING") and v["wireless"] for k, v in c["link"].items() if k != "none"):
            ctx.nontrivial(c["link"])
    ctx.judge("Radio", cases, [f"{c['kind']}#{k}" for k, c in enumerate(cases)])
