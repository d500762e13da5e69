"""L03: how far device pairs reach (spec/Range.tla over spec/Radio.tla)."""
from harness.core import attempt
from harness.radio import device, radio
from terragraph_planner.common.rf.link_budget_calculator import get_max_tx_power
from terragraph_planner.los.helper import (
    get_max_los_dist_for_device_pairs,
    search_max_los_dist_based_on_capacity,
)

LEVEL = "model_checking"
RULE = "a distinct set of device radios and limits"
ASSUMPTIONS = ["capacity does not rise with distance (decided by R01)", "a distance of zero metres is taken to have capacity"]


def table(t):
    return [{"mcs": m.mcs, "snr": float(m.snr), "mbps": float(m.mbps), "backoff": float(m.tx_backoff)} for m in t]


def case(rng, _k):
    out = []
    dns = [device(rng, f"DN_{k}", patterns=False) for k in range(rng.randint(1, 3))]
    cns = [device(rng, f"CN_{k}", "CN", patterns=False) for k in range(rng.randint(0, 2))]
    devs = dns + cns
    rng.shuffle(devs)
    eirp = rng.choice([None, None, 45.0, 38.0, 30.0])
    bh, ac = rng.choice([None, None, 3, 6, 9, 12]), rng.choice([None, None, 3, 6, 9, 12])
    limit = rng.choice([None, 200, 150, 400, 1000, 50])
    rec = {
        "radio": {d.device_sku: radio(d) for d in devs}, "type": {d.device_sku: d.device_type.name for d in devs},
        "eirp": "none" if eirp is None else eirp, "backhaul": -1 if bh is None else bh, "access": -1 if ac is None else ac, "limit": -1 if limit is None else limit,
    }
    st, v = attempt(get_max_los_dist_for_device_pairs, devs, eirp, bh, ac, limit)
    if st == "ok":
        out.append({"kind": "pairs", "refused": False, "beyond": False, "got": [{"tx": a, "rx": b, "dist": int(d)} for (a, b), d in v.items()], **rec})
    elif st in ("ConfigException", "LOSException"):
        out.append({"kind": "pairs", "refused": st == "ConfigException", "beyond": st == "LOSException", "got": [], **rec})
    else:
        out.append({"kind": "crash", "text": f"{st}: {v}", **rec})
    tx, rx = rng.choice(dns), rng.choice(devs)
    t = [m for m in rx.sector_params.mcs_map if m.mcs >= rng.choice([0, 0, 9])] or rx.sector_params.mcs_map
    lo = rng.choice([1, 1, 10, 100, 0])
    hi = lo + rng.choice([1, 50, 300, 2000, 10000])
    st, v = attempt(search_max_los_dist_based_on_capacity, lo, hi, get_max_tx_power(tx.sector_params, eirp), tx.sector_params, rx.sector_params, t)
    rec = {"tx": radio(tx), "rx": radio(rx), "table": table(t), "eirp": "none" if eirp is None else eirp, "lo": lo, "hi": hi}
    if st == "ok":
        out.append({"kind": "search", "got": -1 if v is None else int(v), **rec})
    else:
        out.append({"kind": "crash", "text": f"{st}: {v}", **rec})
    return out


def run(ctx):
    cases = [c for cs in ctx.pmap(case, range(ctx.pick(1500, 20000))) for c in cs]
    for c in cases:
        if c["kind"] != "crash":
            ctx.nontrivial({k: v for k, v in c.items() if k != "got"})
    got = [g["dist"] for c in cases if c["kind"] == "pairs" for g in c["got"]]
    ctx.notes["ranges"] = {"pairs": len(got), "zero": got.count(0), "capped": sum(1 for c in cases if c["kind"] == "pairs" for g in c["got"] if g["dist"] == c["limit"])}
    ctx.judge("Range", cases, [f"{c['kind']}#{k}" for k, c in enumerate(cases)])
