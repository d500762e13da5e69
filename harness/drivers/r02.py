"""R02: the report of a finished network (spec/Report.tla).

Random finished networks (leftover candidates, wired links, co-located sites,
several demand points, every routing policy) are analysed by the real report
and the files it writes are read back.  The specification recomputes every
cell and every total from the network as the analysis left it, with the
specifications of failures, flow, counting, cost and deployment rules.
"""
import copy
import csv
import os
import shutil
import tempfile

import yaml

from harness import plans
from harness.core import attempt
from harness.world import ST
from terragraph_planner.common.configuration.enums import PolarityType, StatusType, TopologyRouting
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.optimization import topology_report as tr
from terragraph_planner.optimization.deployment_rules import find_angle_violating_link_pairs
from terragraph_planner.optimization.topology_networkx import build_digraph, get_topology_routing_results
from terragraph_planner.optimization.topology_preparation import add_link_capacities

LEVEL = "model_checking"
RULE = "a distinct finished network with its report"
ASSUMPTIONS = ["at least one POP is active and some demand point can be served, as after every successful planning"]
ACT = ("PROPOSED", "EXISTING")
RADIO = {"Tx Beam Azimuth": "tx_beam_azimuth", "Rx Beam Azimuth": "rx_beam_azimuth", "Deviation from Tx Boresight": "tx_dev", "Deviation from Rx Boresight": "rx_dev",
         "Deviation from El Boresight": "el_dev", "Tx Power (dBm)": "tx_power", "Estimated SNR (dB)": "snr_dbm", "Estimated SINR (dB)": "sinr_dbm",
         "Estimated RSL": "rsl_dbm", "Confidence Level": "confidence_level"}


def num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return "N/A" if x is None else x


def rows(path):
    with open(path, newline="") as f:
        return list(csv.DictReader(f))


def statuses(b):
    return (
        {k: (o.status_type.name, o.site_type.name, o.polarity.name, repr(o.latitude), repr(o.longitude), repr(o.altitude)) for k, o in b.site.items()},
        {k: (o.status_type.name, o.channel, o.ant_azimuth, o.node_id) for k, o in b.sec.items()},
        {k: (o.status_type.name, o.link_type.name, o.tx_sector and o.tx_sector.sector_id, o.rx_sector and o.rx_sector.sector_id) for k, o in b.link.items()},
        {k: (o.demand, o.num_sites, sorted(s.site_id for s in o.connected_sites)) for k, o in b.dem.items()},
        sorted(b.t.sites), sorted(b.t.links), sorted(b.t.sectors),
    )


def record(b, p):
    """The network as it is now, as the specification reads it."""
    rec = b.record()
    plan = b.plan
    sec_of = {id(o): k for k, o in b.sec.items()}
    for n, o in b.site.items():
        rec["site"][n].update(
            loc=rec["site"][n]["at"], sku=o.device.device_sku, cost=float(o.device.node_capex), hash=o.site_hash, polarity=o.polarity.name,
            lat=float(o.latitude), lon=float(o.longitude), alt=float(o.altitude), building=str(o.building_id) if o.building_id is not None else "N/A", subscribers=str(o.number_of_subscribers) if o.number_of_subscribers is not None else "N/A")
    rec["sec"] = {k: {**plan["sec"][k], "type": "CN" if plan["site"][plan["sec"][k]["site"]]["type"] == "CN" else "DN", "channel": int(o.channel), "id": o.sector_id, "az": float(o.ant_azimuth)}
                  for k, o in b.sec.items()}
    for l, o in b.link.items():
        rec["link"][l].update(
            wireless=o.is_wireless, wired=not o.is_wireless, cap=float(o.capacity), mcs=int(o.mcs_level), flow=float(o.proposed_flow), util=float(o.utilization), spare=bool(o.is_redundant),
            ts=sec_of[id(o.tx_sector)] if o.tx_sector else "none", rs=sec_of[id(o.rx_sector)] if o.rx_sector else "none",
            radio={k: num(getattr(o, a, None)) for k, a in RADIO.items()})
    caps = [o.capacity for o in b.link.values()]
    rec["cfg"]["hand"] = float(max(caps))
    rec["cfg"]["over"] = float(p.oversubscription)
    rec["blocked"] = []
    rec["demand"] = {d: v["sites"] for d, v in plan["dem"].items()}
    rec["want"] = {d: {"amount": float(v["amount"]), "copies": v["copies"]} for d, v in plan["dem"].items()}
    rec["price"] = {"pop": float(p.pop_site_capex), "dn": float(p.dn_site_capex), "cn": float(p.cn_site_capex)}
    rec["dn_limit"], rec["total_limit"] = p.dn_dn_sector_limit, p.dn_total_sector_limit
    return rec


def stat(d):
    return {k: float(d[k]) for k in ("avg", "max", "min")}


def one(rng, k):
    cand = rng.random() < 0.15
    plan = plans.random_plan(rng, pops=(1, 2), dns=(1, 4), cns=(0, 3), mode=rng.choice(["active", "active", "mostly", "mixed"]), colocate=0.15,
                             active_links=rng.choice([0.0, 0.6, 0.9]) if cand else 0.9, wired=0.15, polar=False, density=rng.choice([0.5, 0.8]), demands=(0, 2), pop_demand=0.4)
    if not plan["link"] or not plan["dem"]:
        return None
    if not any(s["type"] == "POP" and s["status"] in ACT for s in plan["site"].values()):
        return None
    for v in plan["link"].values():
        if v["status"] in ACT and rng.random() < 0.06:
            v["spare"] = True
    for n, s in plan["site"].items():
        if rng.random() < 0.3:
            s["building"] = rng.randint(1, 9)
    cfg = plans.random_cfg(rng, plan)
    b = plans.Built(plan, cfg, rng)
    for n, o in b.site.items():
        if o.site_type.name != "CN":
            o.polarity = rng.choice([PolarityType.ODD, PolarityType.EVEN, PolarityType.UNASSIGNED])
    chans = rng.choice([[0], [0, 1], [-1]])
    chan = rng.choice(chans)
    live = {id(x) for o in b.link.values() if o.status_type.name in ACT and o.tx_sector for x in (o.tx_sector, o.rx_sector)}
    for x in b.sec.values():
        x.channel = chan if id(x) in live else rng.choice(chans)
        x.ant_azimuth = rng.uniform(0, 360)
    policy = rng.choice([None, None, *TopologyRouting])
    sim = rng.choice([0.0, 1.0, 1.0])
    p = b.params(topology_routing=policy, availability_sim_time=sim, availability_seed=rng.randint(0, 99),
                 dn_dn_sector_limit=rng.choice([1, 2]), dn_total_sector_limit=rng.choice([2, 15]), diff_sector_angle_limit=rng.choice([25.0, 60.0]),
                 near_far_angle_limit=rng.choice([45.0, 90.0]), near_far_length_ratio=rng.choice([3.0, 1.5]))
    p.link_availability_percentage = rng.choice([0.0, 0.0, 100.0, 90.0])
    st, v = attempt(add_link_capacities, b.t, p, with_deviation=False)
    if st != "ok":
        return {"kind": "crash", "what": "add_link_capacities", "text": f"{st}: {v}"}
    before = statuses(b)
    was = {"link": {l: {"spare": bool(o.is_redundant)} for l, o in b.link.items()}}
    used = []
    if policy is not None:
        g = build_digraph(b.t, StatusType.active_status())
        st, v = attempt(get_topology_routing_results, b.t, g, policy)
        if st != "ok":
            return {"kind": "crash", "what": "get_topology_routing_results", "text": f"{st}: {v}"}
        lname = {o.link_id: l for l, o in b.link.items()}
        used = [[plan["link"][lname[i]]["tx"], plan["link"][lname[i]]["rx"]] for i in v if i in lname]
    tmp = tempfile.mkdtemp(prefix="report")
    old = current_system_params.output_dir
    current_system_params.output_dir = tmp
    try:
        st, v = attempt(tr.analyze_with_dump, b.t, p, seconds=60)
        if st == "OptimizerException" and "positive capacity" in str(v):
            return None
        if st != "ok":
            return {"kind": "crash", "what": "analyze_with_dump", "text": f"{st}: {v}", **record(b, p)}
        out = os.path.join(tmp, "output")
        files = {}
        for f in ("link", "site", "sector"):
            with open(os.path.join(out, f + ".csv")) as fh:
                files[f] = [] if fh.read().strip() in ("", '""') else rows(os.path.join(out, f + ".csv"))
        with open(os.path.join(out, "metrics.yaml")) as fh:
            m = yaml.unsafe_load(fh)
    finally:
        current_system_params.output_dir = old
        shutil.rmtree(tmp, ignore_errors=True)
    rec = record(b, p)
    viol = find_angle_violating_link_pairs(b.t, p.diff_sector_angle_limit, p.near_far_angle_limit, p.near_far_length_ratio, active_components=True)
    trip = lambda xs: [[b.name[i] for i in x] for x in xs]  # noqa: E731
    d, fm, mf = m["demand_metrics"], m["flow_metrics"], m["failure_disruption"]
    part = lambda x: {"count": x["active_count"], "per": stat(x["links_per_sector"]), "len": stat(x["link_dist"])}  # noqa: E731
    hist = lambda x: [{"mcs": int(a), "n": int(n)} for a, n in x.items()]  # noqa: E731
    return {
        "kind": "report", **rec, "was": was, "used": used, "routed": policy is not None, "still": before == statuses(b),
        "diff": trip(viol.diff_sector_list), "near": trip(viol.near_far_list), "sim": sim > 0, "up": float(p.link_availability_percentage),
        "got": dict(m["counts"]), "skus": {"none": 0, **{k: n for k, n in m["active_site_sku_counter"].items() if n}},
        "chans": {"none": 0, **{str(k): n for k, n in m["channel_occupancy_counter"].items()}},
        "capex": {"total": float(m["capex"]["total_capex"]), "proposed": float(m["capex"]["proposed_capex"])},
        "demands": {"number": d["number_of_demands"], "cut": d["number_of_disconnected_demands"], "direct": d["number_of_demands_connected_to_pops"],
                    "double": d["number_of_demands_with_disjoint_path"], "percent": float(d["percentage_of_demand_with_disjoint_path"]),
                    "total": float(d["total_demand"]), "over": float(d["total_demand_oversubscribed"])},
        "flow": [] if fm is None else [{"total": float(fm["total_bandwidth"]), "least": float(fm["minimum_bandwdith_for_connected_demand"]), "util": stat(fm["link_capacity_utilization"])}],
        "backhaul": part(m["backhaul_link"]), "access": part(m["access_link"]), "mcsb": hist(m["backhaul_mcs"]), "mcsa": hist(m["access_mcs"]),
        "availability": {"avg": float(m["availability_metrics"]["avg"]), "points": [{"p": int(a), "v": float(x)} for a, x in m["availability_metrics"]["percentiles"].items()]},
        "failures": {"edge": stat(mf["edge_fail_effect"]), "pop": stat(mf["pop_fail_effect"]), "dn": stat(mf["dn_fail_effect"])},
        "rules": {"diff": m["diff_sector_link_violations"], "near": m["near_far_link_violations"], "over": m["sector_link_limit_violations"]},
        "lrow": [{"tx": r["Tx Site Name"], "rx": r["Rx Site Name"], "kind": r["Link Type"], "status": r["Status"], "len": num(r["Distance"]), "flow": num(r["Data Flow (Gbps)"]),
                  "cap": num(r["Throughput (Gbps)"]), "util": num(r["Utilization"]), "radio": {k: num(r[k]) for k in RADIO}, "mcs": int(float(r["Estimated MCS"])),
                  "sectors": r["Sectors"], "channel": r["Channel"], "outages": int(float(r["Outages Caused"])), "diff": r["Violates Diff Sector Angle Rule"],
                  "near": r["Violates Near-Far Rule"], "over": r["Violates Sector Link Limit"]} for r in files["link"]],
        "srow": [{"name": r["Site Name"], "type": r["Site Type"], "status": r["Status"], "sku": r["Device SKU"], "hash": r["Site Geohash"], "polarity": r["Polarity"], "lat": num(r["Lat"]),
                  "lon": num(r["Lon"]), "alt": num(r["Altitude"]), "outages": int(float(r["Outages Caused"])), "capex": num(r["Site Capex"]), "nodes": int(r["Active Nodes"]),
                  "sectors": int(r["Active Sectors"]), "links": int(r["Active Links"]), "hops": r["Hops to Nearest Pop"], "sent": num(r["Outgoing Flow"]), "got": num(r["Incoming Flow"]),
                  "building": r["Building Id"], "subscribers": r["Number of Subscribers"]} for r in files["site"]],
        "krow": [{"id": r["Sector ID"], "node": int(r["Node ID"]), "pos": int(r["Sector Position"]), "hash": r["Site Geohash"], "status": r["Status"], "az": num(r["Azimuth Orientation"]),
                  "polarity": r["Polarity"], "channel": r["Channel"], "cost": num(r["Node Cost"]), "backhaul": int(r["Active Backhaul Links"]), "access": int(r["Active Access Links"]),
                  "type": r["Site Type"], "over": r["Violates Link Load"]} for r in files["sector"]],
    }


def run(ctx):
    plans.judge(ctx, ctx.pmap(one, list(range(ctx.pick(900, 9000)))), "Fails", module="Report")
