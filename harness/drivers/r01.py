"""R01: link budgets, stored measurements and power control (spec/Radio.tla).

The transmit power control of the report is a transition system: the recorded
sequence of states after 1, 2, ... rounds is judged step by step.
"""
import copy
import math

from harness.core import attempt
from harness.radio import RadioNet, planning, device, radio, state
from terragraph_planner.common.rf.link_budget_calculator import fspl_based_estimation, get_max_tx_power
from terragraph_planner.optimization.topology_operations import update_link_caps_with_sinr
from terragraph_planner.optimization.topology_preparation import add_link_capacities

LEVEL = "model_checking"
RULE = "a distinct pair of radios with geometry, or network with at least one active wireless link"


def estimate(tx, rx, c, eirp):
    m = fspl_based_estimation(
        distance=c["dist"], max_tx_power=get_max_tx_power(tx.sector_params, eirp),
        tx_sector_params=tx.sector_params, rx_sector_params=rx.sector_params, mcs_snr_mbps_map=rx.sector_params.mcs_map,
        tx_deviation=c["txaz"], rx_deviation=c["rxaz"], tx_el_deviation=c["txel"], rx_el_deviation=c["rxel"],
        tx_scan_pattern_data=tx.sector_params.scan_pattern_data, rx_scan_pattern_data=rx.sector_params.scan_pattern_data,
    )
    return {"mcs": int(m.mcs_level), "rsl": float(m.rsl_dbm), "snr": float(m.snr_dbm), "cap": float(m.capacity), "tx": float(m.tx_power)}


def budgets(rng, _k):
    out = []
    tx, rx = device(rng, "DN_A", extreme=True), device(rng, "DN_B", extreme=True)
    if rng.random() < 0.5:
        rx = tx
    eirp = rng.choice([None, None, 40.0, 30.0, 22.0, 60.0])
    for _ in range(6):
        c = {"dist": rng.choice([rng.uniform(1, 300), rng.uniform(100, 800), rng.choice([0.5, 2000.0, 10000.0])]),
             "txaz": rng.uniform(-60, 60), "rxaz": rng.uniform(-60, 60), "txel": rng.uniform(-20, 20), "rxel": rng.uniform(-20, 20)}
        if rng.random() < 0.3:
            c.update(txaz=0.0, rxaz=0.0, txel=0.0, rxel=0.0)
        st, v = attempt(estimate, tx, rx, c, eirp)
        rec = {"tx": radio(tx), "rx": radio(rx), "eirp": "none" if eirp is None else eirp, **c}
        if st != "ok":
            out.append({"kind": "crash", "what": "fspl_based_estimation", "text": f"{st}: {v}", **rec})
            continue
        out.append({"kind": "budget", "got": v, **rec})
        # the same link made worse
        tx2, rx2, c2 = tx, rx, dict(c)
        how = rng.choice(["far", "rain", "avail", "noise", "loss"])
        if how == "far":
            c2["dist"] = c["dist"] * rng.uniform(1, 3)
        else:
            tx2 = copy.deepcopy(tx)
            rx2 = tx2 if rx is tx else copy.deepcopy(rx)
            if how == "rain":
                tx2.sector_params.rain_rate += rng.uniform(0, 40)
            elif how == "avail":
                tx2.sector_params.link_availability_percentage = min(99.9999, tx2.sector_params.link_availability_percentage + rng.uniform(0, 5))
            elif how == "noise":
                rx2.sector_params.noise_figure += rng.uniform(0, 5)
            else:
                rx2.sector_params.rx_miscellaneous_loss += rng.uniform(0, 5)
        st, u = attempt(estimate, tx2, rx2, c2, eirp)
        if st == "ok":
            out.append({"kind": "worse", "how": how, "better": v, "worse": u, "second": {"tx": radio(tx2), "rx": radio(rx2), **c2}, **rec})
    return out


def net(rng, _k):
    out = []
    g = RadioNet(rng, inactive=0.05)
    eirp = rng.choice([None, 45.0, 35.0])
    popcap = rng.choice([20.0, 2.5])
    p = planning(rng, g.devs, maximum_eirp=eirp, pop_capacity=popcap)
    base = {"eirp": "none" if eirp is None else eirp, "popcap": popcap}
    for dv in (False, True):
        st, v = attempt(add_link_capacities, g.t, p, with_deviation=dv)
        if st != "ok":
            return [{"kind": "crash", "what": "add_link_capacities", "text": f"{st}: {v}", **base, **g.record()}]
        rec = g.record()
        out.append({"kind": "stored", "dev": dv, **base, **rec})
    start = {"none": {"rsl": 0.0, "txp": 0.0}, **{k: state(o) for k, o in g.lk.items()}}
    steps = []
    for k in range(1, 12):
        st, v = attempt(update_link_caps_with_sinr, g.t, p, k)
        if st != "ok":
            out.append({"kind": "crash", "what": "update_link_caps_with_sinr", "text": f"{st}: {v}", **base, **rec})
            return out
        steps.append({"none": {"mcs": 0}, **{k2: state(o) for k2, o in g.lk.items()}})
        if len(steps) > 1 and str(steps[-1]) == str(steps[-2]):
            break
    out.append({"kind": "power", "start": start, "step": steps, **base, **rec})
    return out


def run(ctx):
    cases = [c for cs in ctx.pmap(budgets, range(ctx.pick(400, 8000))) for c in cs]
    cases += [c for cs in ctx.pmap(net, range(ctx.pick(500, 8000))) for c in cs]
    for c in cases:
        if c["kind"] in ("budget", "power"):
            ctx.nontrivial(c.get("got") or c["step"][-1])
    ctx.judge("Radio", cases, [f"{c['kind']}#{k}" for k, c in enumerate(cases)])
