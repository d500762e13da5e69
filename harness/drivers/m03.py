"""M03: which links and channels are switched on (spec/Interference.tla).

Small networks whose sites are settled are handed to the real interference
model, with the exact solver stand-in.  The specification enumerates every
polarity colouring, channel assignment, maximal set of links and modulation
class and solves what each delivers by its own simplex: the outcome must obey
all rules on links, sectors and channels, carry no more than the interference
of the reported airtime leaves, and nothing else may have a better objective.
"""
import math

from harness import plans
from harness.core import attempt
from terragraph_planner.common.structs import MCSMap
from terragraph_planner.optimization.ilp_models.interference_optimization import MinInterferenceNetwork

LEVEL = "model_checking"
RULE = "a distinct network with settled sites, levels, limits and channels, and the links that were switched on"
ASSUMPTIONS = ["the solver stand-in (HiGHS) is exact on these small problems; the specification judges the planner's outcome, not the solver's claims"]

TABLES = [
    [(3.0, 0.0), (9.0, 600.0), (18.0, 1800.0)],
    [(5.0, 300.0), (12.0, 1000.0)],
    [(3.0, 0.0), (6.0, 400.0), (10.0, 900.0), (16.0, 1500.0)],
]


def network(rng, chan, crowd=False):
    plan = plans.random_plan(rng, pops=(1, 1) if crowd else (1, 2), dns=(1, 3) if chan == 1 else (1, 2), cns=(1, 2) if crowd else (0, 2) if chan == 1 else (0, 1),
                             mode=rng.choice(["active", "mostly", "mostly"]),
                             colocate=0.0 if crowd else rng.choice([0.0, 0.0, 0.2]), density=1.0 if crowd else rng.choice([0.5, 0.7, 0.9]), caps=(0.0, 1.0, 1.5, 1.8, 2.0, 2.0), amounts=(0.3, 0.7, 1.0, 1.5, 2.0, 4.0),
                             active_links=rng.choice([0.3, 0.6, 0.9]), demands=(0, 2), nodes=0.3)
    for n, s in plan["site"].items():
        if s["type"] != "CN":
            continue
        # at most one link into a CN is already there
        kept = False
        for v in plan["link"].values():
            if v["rx"] == n and v["status"] == "EXISTING":
                if kept:
                    v["status"] = "CANDIDATE"
                kept = True
    if crowd:
        # one sector of the POP serves everything around it
        s = min(k for k in plan["sec"] if plan["sec"][k]["site"] == "p0")
        for v in plan["link"].values():
            if v["status"] in plans.ACTIVE:
                continue
            if v["tx"] == "p0" and v["ts"] != "none":
                v["ts"] = s
            if v["rx"] == "p0" and v["rs"] != "none":
                v["rs"] = s
    for v in plan["link"].values():
        v["rsl"] = rng.choice([-50.0, -55.0, -58.0, -62.0])
        v["irsl"] = rng.choice([None, -85.0, -72.0, -66.0, -60.0, -52.0])
    return plan


def azimuth(plan, l):
    """The bearing at the receiver towards the transmitter."""
    v = plan["link"][l]
    a, b = plan["site"][v["rx"]]["pos"], plan["site"][v["tx"]]["pos"]
    return math.degrees(math.atan2(b[0] - a[0], b[1] - a[1])) % 360


def one(rng, item):
    k, common = item
    chan = 2 if k % 4 == 3 else 1
    crowd = k % 5 == 0
    plan = network(rng, chan, crowd)
    if not plan["link"] or not plan["dem"]:
        return None
    if sum(1 for v in plan["link"].values() if not v["wired"] and v["cap"] > 0) > (14 if chan == 1 else 10):
        return None
    cfg = plans.random_cfg(rng, plan, common=common)
    b = plans.Built(plan, cfg, rng)
    gear = {}
    for sku, d in b.dev.items():
        t = rng.choice(TABLES)
        d.sector_params.mcs_map = [MCSMap(i, snr, mbps) for i, (snr, mbps) in enumerate(t)]
        d.sector_params.horizontal_scan_range = rng.choice([360.0, 90.0, 180.0]) if sku.startswith("CN") else 70.0
        gear[sku] = {"noise": d.sector_params.thermal_noise_power + d.sector_params.noise_figure, "rows": [{"snr": x, "gbps": y / 1000} for x, y in t],
                     "scan": d.sector_params.horizontal_scan_range}
    raz = {l: azimuth(plan, l) for l in plan["link"]}
    for l, v in plan["link"].items():
        for m, u in plan["link"].items():
            if l < m and v["rx"] == u["rx"] and plan["site"][v["rx"]]["type"] == "CN":
                d = abs((raz[l] - raz[m] + 180) % 360 - 180)
                if abs(d - gear[plan["site"][v["rx"]]["sku"]]["scan"] / 2) < 1.0:
                    return None
    lim = {"dn": rng.choice([1, 2, 2]), "all": rng.choice([2, 2, 3] if crowd else [2, 3, 15]), "chan": chan}
    clash = []
    for l, v in plan["link"].items():
        for m, u in plan["link"].items():
            if l < m and v["tx"] == u["tx"] and rng.random() < 0.15:
                clash.append([v["tx"], v["rx"], u["rx"]])
    # of two given DN/POP in one place one is left out, but its links may still
    # settle polarities: not decided here
    rank = {"CN": 0, "DN": 1, "POP": 2}
    for v in plan["link"].values():
        for n in (v["tx"], v["rx"]):
            s = plan["site"][n]
            if v["status"] in plans.ACTIVE and s["type"] != "CN" and any(
                o["pos"] == s["pos"] and o["status"] in plans.ACTIVE and rank[o["type"]] > rank[s["type"]] for o in plan["site"].values()
            ):
                return None
    # the links that are there already keep to the limits
    for sec in plan["sec"]:
        out = [v for v in plan["link"].values() if v["ts"] == sec and v["status"] == "EXISTING"]
        if len(out) > lim["all"] or sum(1 for v in out if plan["site"][v["rx"]]["type"] != "CN") > lim["dn"]:
            return None
    p = b.params(dn_dn_sector_limit=lim["dn"], dn_total_sector_limit=lim["all"], number_of_channels=chan)
    heard = {l: v["irsl"] for l, v in plan["link"].items() if v["irsl"] is not None and not v["wired"]}
    rec = {**b.record(), "blocked": [], "cov": 0.0, "lim": lim, "clash": clash, "heard": {"none": 0.0, **heard}, "gear": {n: gear[s["sku"]] for n, s in plan["site"].items()}}
    for l, v in rec["link"].items():
        v.update(dist=float(b.link[l].distance), rsl=float(plan["link"][l]["rsl"]), raz=raz[l])
    sid = {n: o.site_id for n, o in b.site.items()}
    irsl = {(sid[plan["link"][l]["tx"]], sid[plan["link"][l]["rx"]]): x for l, x in heard.items()}
    st, v = attempt(MinInterferenceNetwork, b.t, p, [(sid[x], sid[y], sid[z]) for x, y, z in clash], irsl, seconds=60)
    if st == "OptimizerException" and "positive capacity" in str(v):
        return None
    if st != "ok":
        return {"kind": "crash", "what": "MinInterferenceNetwork", "text": f"{st}: {v}", **rec}
    st, sol = attempt(v.solve, seconds=60)
    if st != "ok":
        return {"kind": "crash", "what": "solve", "text": f"{st}: {sol}", **rec}
    return {"kind": "switch", **rec, "out": [b.decisions(sol)] if sol is not None else []}


def run(ctx):
    n = ctx.pick(1500, 12000)
    cases = ctx.pmap(one, [(k, k % 6 == 5) for k in range(n)])
    plans.judge(ctx, cases, "SwitchFails", module="Interference")
