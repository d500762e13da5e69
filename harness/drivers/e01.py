"""E01: planning from a candidate file and a configuration file to the delivered
files (spec/Delivered.tla); and planning with no candidate file, where the
network planned upon is the one the same run draws up from the sites and the
area.

Small candidate networks are written as KML or as zipped tables, a
configuration file asks for a plan, and the whole program runs.  Only what it
writes -- the site, link and sector tables, the metrics, the KML of the plan --
is judged, against the network that was put in."""
import csv
import hashlib
import itertools
import math
import multiprocessing
import os
import tempfile
import zipfile

import yaml

from harness import nets
from harness import world as w
from harness.core import attempt
from terragraph_planner.common.configuration.constants import OPTIMIZATION
from terragraph_planner.common.configuration.utils import struct_objects_from_file
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.optimization import topology_optimization as to

LEVEL = "model_checking"
RULE = "a distinct candidate network with its settings and delivered files"
ASSUMPTIONS = [
    "the solver is replaced by an exact stand-in",
    "sites have distinct places and names; links run both ways with one status",
    "the antennas of a site cover all directions",
]
BACKBONE = ("POP", "DN")
METRICS = ("active_sites", "total_sites", "active_pop_sites", "total_pop_sites", "active_dn_sites", "total_dn_sites", "active_cn_sites", "total_cn_sites",
           "active_nodes", "active_dn_nodes", "active_cn_nodes", "active_sectors", "active_cn_sectors", "active_backhaul_links", "active_access_links",
           "total_backhaul_links", "total_access_links")


def devices(rng):
    out = [{"DEVICE_SKU": "DN one", "DEVICE_TYPE": "DN", "NUMBER_OF_NODES_PER_SITE": 2, "NODE_CAPEX": rng.choice([0, 250, 300.5]), "SECTOR_PARAMS": {"HORIZONTAL_SCAN_RANGE": 180.0}},
           {"DEVICE_SKU": "CN one", "DEVICE_TYPE": "CN", "NUMBER_OF_NODES_PER_SITE": 1, "NODE_CAPEX": rng.choice([0, 150]), "SECTOR_PARAMS": {"HORIZONTAL_SCAN_RANGE": 70.0}}]
    if rng.random() < 0.3:
        out.append({"DEVICE_SKU": "DN two", "DEVICE_TYPE": "DN", "NUMBER_OF_NODES_PER_SITE": 2, "NODE_CAPEX": 100,
                    "SECTOR_PARAMS": {"HORIZONTAL_SCAN_RANGE": 90.0, "NUMBER_SECTORS_PER_NODE": 2}})
    return out


def network(rng, csvs):
    kinds = ["POP"] * rng.choice([0, 1, 1, 1, 1, 1, 2, 2]) + ["DN"] * rng.randint(1, 3) + ["CN"] * rng.randint(0 if rng.random() < 0.1 else 1, 4)
    flat = rng.random() < 0.4
    site, spots = {}, []
    for k, kind in enumerate(kinds):
        while True:
            p = (rng.uniform(-130, 130), rng.uniform(-130, 130))
            if all(math.dist(p, q) > 25 for q in spots):
                break
        spots.append(p)
        st = "CANDIDATE" if csvs else rng.choices(["CANDIDATE", "EXISTING", "PROPOSED", "UNAVAILABLE", "UNREACHABLE"], [12, 3, 2, 1, 0.6])[0]
        g = w.at(*p, alt=None if flat else round(rng.uniform(3, 30), 2))
        site[f"{kind.lower()} {k}"] = {"type": kind, "status": st, "at": g, "subs": rng.choice([1, 1, 2]) if kind == "CN" else 0}
    pair = []
    names = list(site)
    for a, b in itertools.combinations(names, 2):
        ta, tb = site[a]["type"], site[b]["type"]
        if (ta == "CN" and tb == "CN") or rng.random() > 0.7:
            continue
        if math.dist(spots[names.index(a)], spots[names.index(b)]) > 230:
            continue
        x = [site[a]["status"], site[b]["status"]]
        st = "CANDIDATE" if csvs else nets.legal_link_status(*x, rng, ("PROPOSED", "EXISTING", "CANDIDATE"))
        pair.append({"a": a, "b": b, "status": st})
    return site, pair


def write(rng, d, site, pair, sku, csvs):
    if csvs:
        with open(os.path.join(d, "sites.csv"), "w", newline="") as f:
            o = csv.writer(f)
            o.writerow(["name", "site type", "latitude", "longitude", "altitude", "device_sku", "number of subscribers"])
            for n, s in site.items():
                g = s["at"]
                o.writerow([n, s["type"], repr(g.latitude), repr(g.longitude), "" if g.altitude is None else g.altitude, sku[n], s["subs"] or ""])
        with open(os.path.join(d, "links.csv"), "w", newline="") as f:
            o = csv.writer(f)
            o.writerow(["tx_site_name", "rx_site_name"])
            for p in pair:
                o.writerow([p["a"], p["b"]])
        path = os.path.join(d, "net.zip")
        with zipfile.ZipFile(path, "w") as z:
            z.write(os.path.join(d, "sites.csv"), "sites.csv")
            z.write(os.path.join(d, "links.csv"), "links.csv")
        return path
    body = ""
    for st in ("CANDIDATE", "EXISTING", "PROPOSED", "UNAVAILABLE", "UNREACHABLE"):
        inner = ""
        for ty in ("POP", "DN", "CN"):
            pts = ""
            for n, s in site.items():
                if (s["type"], s["status"]) == (ty, st):
                    g = s["at"]
                    data = f'<Data name="device_sku"><value>{sku[n]}</value></Data>'
                    if s["subs"]:
                        data += f'<Data name="number_of_subscribers"><value>{s["subs"]}</value></Data>'
                    alt = "" if g.altitude is None else f",{g.altitude!r}"
                    mode = "" if g.altitude is None else "<altitudeMode>absolute</altitudeMode>"
                    pts += (f"<Placemark><name>{n}</name><ExtendedData>{data}</ExtendedData>"
                            f"<Point>{mode}<coordinates>{g.longitude!r},{g.latitude!r}{alt}</coordinates></Point></Placemark>")
            inner += f"<Folder><name>{ty}</name>{pts}</Folder>" if pts else ""
        for ty in ("WIRELESS_BACKHAUL", "WIRELESS_ACCESS"):
            pts = ""
            for p in pair:
                a, b = site[p["a"]]["at"], site[p["b"]]["at"]
                kind = "WIRELESS_ACCESS" if "CN" in (site[p["a"]]["type"], site[p["b"]]["type"]) else "WIRELESS_BACKHAUL"
                if (kind, p["status"]) == (ty, st):
                    data = f'<Data name="tx_site_name"><value>{p["a"]}</value></Data><Data name="rx_site_name"><value>{p["b"]}</value></Data>'
                    pts += (f"<Placemark><ExtendedData>{data}</ExtendedData><LineString><coordinates>{a.longitude!r},{a.latitude!r} "
                            f"{b.longitude!r},{b.latitude!r}</coordinates></LineString></Placemark>")
            inner += f"<Folder><name>{ty}</name>{pts}</Folder>" if pts else ""
        body += f"<Folder><name>{st}</name>{inner}</Folder>" if inner else ""
    path = os.path.join(d, "net.kml")
    with open(path, "w") as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><name>net</name>' + body + "</Document></kml>")
    return path


def settings(rng, site, devs):
    ask = {
        "demand": rng.choice([0.001, 0.001, 0.05, 0.3, 0.9]), "pop": rng.choice([10.0, 10.0, 1.0]), "extra": rng.choice([0, 0, 0, 1, 2]),
        "dn_limit": rng.choice([2, 1, 4]), "total_limit": rng.choice([15, 15, 2, 3]), "hops": rng.choice([15, 15, 1, 2, 3]),
        "angle": rng.choice([25.0, 0.0, 0.0, 60.0, 90.0]), "nearer": rng.choice([45.0, 90.0, 150.0, 170.0]), "ratio": rng.choice([3.0, 1.1, 1.5]), "legacy": rng.random() < 0.5, "level": rng.choice(["NONE", "LOW", "MEDIUM"]),
        "budget": rng.choice([300000.0, 300000.0, 6000.0]), "always": rng.random() < 0.7, "common": rng.random() < 0.2, "over": rng.choice([1.0, 1.0, 2.0]),
        "capex": {"POP": rng.choice([1500.0, 0.0, 1800.0]), "DN": rng.choice([1500.0, 700.0]), "CN": rng.choice([1500.0, 0.0])},
        "routing": rng.choice(["none", "none", "none", "DPA_PATH", "MCS_COST_PATH", "SHORTEST_PATH"]), "channels": rng.choice([1, 1, 2]), "sim": rng.choice([0.0, 1.0]), "mode": rng.choice(["cn"] * 7 + ["uniform", "both"]),
    }
    ask["total_limit"] = max(ask["total_limit"], ask["dn_limit"])
    if rng.random() < 0.35:   # nothing in the way of serving everyone
        ask.update(mode="cn", demand=0.001, pop=10.0, hops=15, dn_limit=9, total_limit=15, angle=0.0, over=1.0, routing="none")
    ask["nearer"] = max(ask["nearer"], ask["angle"]) if ask["angle"] else 0.0
    return ask


def document(rng, d, path, devs, ask, debug, extra=None):
    net = {
        "CANDIDATE_TOPOLOGY_FILE_PATH": path,
        "FINANCIAL": {"CN_SITE_CAPEX": ask["capex"]["CN"], "DN_SITE_CAPEX": ask["capex"]["DN"], "POP_SITE_CAPEX": ask["capex"]["POP"], "BUDGET": ask["budget"]},
        "DIMENSIONING": {"DEMAND": ask["demand"], **({} if ask["mode"] == "cn" else {
            "ENABLE_UNIFORM_DEMAND": True, "ENABLE_CN_DEMAND": ask["mode"] == "both", "DEMAND_SPACING": 150, "DEMAND_CONNECTION_RADIUS": 120})},
        "POP_CAPACITY": ask["pop"], "NUMBER_OF_EXTRA_POPS": ask["extra"], "DN_DN_SECTOR_LIMIT": ask["dn_limit"], "DN_TOTAL_SECTOR_LIMIT": ask["total_limit"],
        "MAXIMUM_NUMBER_HOPS": ask["hops"], "DIFF_SECTOR_ANGLE_LIMIT": ask["angle"], "NEAR_FAR_ANGLE_LIMIT": ask["nearer"],
        "NEAR_FAR_LENGTH_RATIO": ask["ratio"],
        "OVERSUBSCRIPTION": ask["over"], "NUMBER_OF_CHANNELS": ask["channels"], "MAXIMIZE_COMMON_BANDWIDTH": ask["common"], "ALWAYS_ACTIVE_POPS": ask["always"],
        "ENABLE_LEGACY_REDUNDANCY_METHOD": ask["legacy"], "REDUNDANCY_LEVEL": ask["level"], "AVAILABILITY_SIM_TIME": ask["sim"],
    }
    if ask["routing"] != "none":
        net["TOPOLOGY_ROUTING"] = ask["routing"]
    if path is None:
        del net["CANDIDATE_TOPOLOGY_FILE_PATH"]
    doc = {"SYSTEM": {"OUTPUT_DIR": d, "LOG_TO_STDERR": False, "DEBUG_MODE": debug}, "RADIO": {"DEVICE_LIST": devs}, "NETWORK_DESIGN": net, **(extra or {})}
    conf = os.path.join(d, "plan.yaml")
    with open(conf, "w") as f:
        yaml.safe_dump(doc, f, sort_keys=False)
    return conf


def rows(path):
    if not os.path.exists(path):
        return []
    with open(path, newline="") as f:
        return [r for r in csv.DictReader(f)]


def flag(x):
    return {"True": True, "False": False}.get(x, x)


def whole(x):
    return int(float(x))


def read(out):
    """The delivered files as the specification reads them; sites are known by name."""
    site, link, sec = {}, [], {}
    doubled = []
    for r in rows(os.path.join(out, "site.csv")):
        n = r["Site Name"]
        if n in site:
            doubled.append(n)
        site[n] = {
            "type": r["Site Type"], "status": r["Status"], "pol": r["Polarity"], "hash": r["Site Geohash"], "sku": r["Device SKU"], "lat": float(r["Lat"]), "lon": float(r["Lon"]),
            "nodes": whole(r["Active Nodes"]), "sectors": whole(r["Active Sectors"]), "links": whole(r["Active Links"]), "capex": float(r["Site Capex"]),
            "hops": -1 if r["Hops to Nearest Pop"] == "disconnected" else whole(r["Hops to Nearest Pop"]), "out": float(r["Outgoing Flow"]), "in": float(r["Incoming Flow"]),
        }
    for r in rows(os.path.join(out, "link.csv")):
        two = r["Sectors"].split(" --> ")
        link.append({
            "tx": r["Tx Site Name"], "rx": r["Rx Site Name"], "type": r["Link Type"], "status": r["Status"], "len": float(r["Distance"]), "cap": float(r["Throughput (Gbps)"]),
            "flow": float(r["Data Flow (Gbps)"]), "ts": two[0] if len(two) == 2 else "none", "rs": two[1] if len(two) == 2 else "none",
            "ch": -1 if r["Channel"] == "UNASSIGNED" else whole(r["Channel"]), "diff": flag(r["Violates Diff Sector Angle Rule"]),
            "near": flag(r["Violates Near-Far Rule"]), "load": flag(r["Violates Sector Link Limit"]),
        })
    for r in rows(os.path.join(out, "sector.csv")):
        sec[r["Sector ID"]] = {
            "hash": r["Site Geohash"], "type": r["Site Type"], "status": r["Status"], "pol": r["Polarity"], "node": whole(r["Node ID"]), "cost": float(r["Node Cost"]),
            "ch": -1 if r["Channel"] == "UNASSIGNED" else whole(r["Channel"]), "bh": whole(r["Active Backhaul Links"]), "acc": whole(r["Active Access Links"]),
            "load": flag(r["Violates Link Load"]),
        }
    with open(os.path.join(out, "metrics.yaml")) as f:
        m = yaml.unsafe_load(f)
    fl = m.get("flow_metrics") or {}
    met = {k: m["counts"][k] for k in METRICS}
    met.update({"total_capex": float(m["capex"]["total_capex"]), "proposed_capex": float(m["capex"]["proposed_capex"]),
                "demands": m["demand_metrics"]["number_of_demands"], "cut": m["demand_metrics"]["number_of_disconnected_demands"],
                "demand": float(m["demand_metrics"]["total_demand"]),
                "least": float(fl.get("minimum_bandwdith_for_connected_demand", 0.0) or 0.0),
                "diff": m["diff_sector_link_violations"], "near": m["near_far_link_violations"], "load": m["sector_link_limit_violations"]})
    return {"doubled": doubled, "site": site, "link": link, "sec": sec, "m": met}


def digest(out):
    h = {}
    for f in sorted(os.listdir(out)):
        with open(os.path.join(out, f), "rb") as g:
            h[f] = hashlib.md5(g.read()).hexdigest()
    return h


def plan(rng, d, path, devs, ask, debug, extra=None):
    """Run the program; ("planned", folder), ("refused", text) or ("crash", text)."""
    os.makedirs(d)
    conf = document(rng, d, path, devs, ask, debug, extra)
    r, v = attempt(to.optimize_and_report_topology_with_config_file, conf, seconds=120)
    if r == "ok":
        return "planned", os.path.join(d, "output")
    if r == "OptimizerException":
        return "refused", str(v)
    return "crash", f"{r}: {v}"


def raw(rng, k):
    """No candidate file: sites and an area are given, the run draws up its own network."""
    site, _ = network(rng, True)
    for n, s in site.items():
        s["status"] = rng.choice(["CANDIDATE"] * 6 + ["EXISTING", "UNAVAILABLE"])
    if all(s["at"].altitude is None for s in site.values()):
        high = None
    else:
        high = rng.uniform(3, 12)
        site = {n: {**s, "at": w.GeoLocation(latitude=s["at"].latitude, longitude=s["at"].longitude, altitude=round(high + rng.uniform(0, 6), 2))} for n, s in site.items()}
    devs = devices(rng)
    dns = [x["DEVICE_SKU"] for x in devs if x["DEVICE_TYPE"] == "DN"]
    sku = {n: "CN one" if s["type"] == "CN" else rng.choice(dns) for n, s in site.items()}
    ask = settings(rng, site, devs)
    far, near = rng.choice([120, 200, 250]), rng.choice([5, 5, 30])
    multiprocessing.current_process()._config["daemon"] = False  # the generation uses processes of its own
    with tempfile.TemporaryDirectory() as top:
        path = write(rng, top, site, [], sku, False)
        c = " ".join(f"{q.longitude!r},{q.latitude!r},0" for q in [w.at(x, y) for x, y in ((-160, -160), (160, -160), (160, 160), (-160, 160), (-160, -160))])
        edge = os.path.join(top, "area.kml")
        with open(edge, "w") as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><Folder><name>a</name><Placemark><name>z</name><Polygon><outerBoundaryIs>'
                    f"<LinearRing><coordinates>{c}</coordinates></LinearRing></outerBoundaryIs></Polygon></Placemark></Folder></Document></kml>")
        extra = {"DATA": {"BOUNDARY_POLYGON_FILE_PATH": edge, "SITE_FILE_PATH": path},
                 "LINE_OF_SIGHT": {"MAXIMUM_LOS_DISTANCE": far, "MINIMUM_LOS_DISTANCE": near, "NUM_PROCESSORS": 1}}
        d = os.path.join(top, "raw")
        end, val = plan(rng, d, None, devs, ask, False, extra)
        case = {"kind": "raw", "cfg": {**ask, "node": {x["DEVICE_SKU"]: float(x["NODE_CAPEX"]) for x in devs}, "far": far, "near": near}, "end": end, "text": val if end != "planned" else "",
                "out": [], "same": True, "kml": [], "site": {}, "pair": [],
                "asked": {n: {"type": s["type"], "status": s["status"], "sku": sku[n], "lat": s["at"].latitude, "lon": s["at"].longitude, "alt": s["at"].altitude, "subs": s["subs"]} for n, s in site.items()}}
        drawn = os.path.join(d, "output", "candidate_topology.kml")
        if end == "crash" or not os.path.exists(drawn):
            return [{**case, "end": "crash"}]
        t = load(drawn, os.path.join(d, "plan.yaml"))
        case["site"], case["pair"] = network_of(t)
        if end == "planned":
            r, o = attempt(read, val)
            r2, m = attempt(back, os.path.join(val, "reporting_topology.kml"), os.path.join(d, "plan.yaml"))
            if "ok" == r == r2:
                case["out"], case["kml"] = [o], [m]
            else:
                case["end"], case["text"] = "crash", f"files: {r}: {o} {r2}: {m}"
    return [case]


def network_of(t):
    site = {s.name: {"type": s.site_type.name, "status": s.status_type.name, "sku": s.device.device_sku, "lat": s.latitude, "lon": s.longitude, "alt": s.altitude, "subs": s.number_of_subscribers}
            for s in t.sites.values()}
    pair = {tuple(sorted((x.tx_site.name, x.rx_site.name))): x.status_type.name for x in t.links.values() if x.is_wireless}
    return site, [{"a": a, "b": b, "status": s} for (a, b), s in sorted(pair.items())]


def one(rng, k):
    if k % 6 == 5:
        return raw(rng, k)
    csvs = rng.random() < 0.3
    site, pair = network(rng, csvs)
    devs = devices(rng)
    dns = [x["DEVICE_SKU"] for x in devs if x["DEVICE_TYPE"] == "DN"]
    sku = {n: "CN one" if s["type"] == "CN" else rng.choice(dns) for n, s in site.items()}
    ask = settings(rng, site, devs)
    with tempfile.TemporaryDirectory() as top:
        path = write(rng, top, site, pair, sku, csvs)
        end, val = plan(rng, os.path.join(top, "one"), path, devs, ask, False)
        case = {"kind": "plan", "site": {n: {"type": s["type"], "status": s["status"], "sku": sku[n], "lat": s["at"].latitude, "lon": s["at"].longitude, "alt": s["at"].altitude, "subs": s["subs"]} for n, s in site.items()},
                "pair": pair, "cfg": {**ask, "node": {x["DEVICE_SKU"]: float(x["NODE_CAPEX"]) for x in devs}}, "end": end, "text": val if end != "planned" else "", "out": [], "same": True, "kml": []}
        if end == "crash":
            return [case]
        if end == "planned":
            r, o = attempt(read, val)
            if r != "ok":
                case["end"], case["text"] = "crash", f"files: {r}: {o}"
                return [case]
            case["out"] = [o]
            r, t = attempt(back, os.path.join(val, "reporting_topology.kml"), os.path.join(top, "one", "plan.yaml"))
            if r != "ok":
                case["end"], case["text"] = "crash", f"kml: {r}: {t}"
                return [case]
            case["kml"] = [t]
        if k % 4 == 0:
            e2, v2 = plan(rng, os.path.join(top, "two"), path, devs, ask, True)
            case["same"] = (end, digest(val) if end == "planned" else val) == (e2, digest(v2) if e2 == "planned" else v2)
        if k % 3 == 1 and end == "planned":
            return [case, again(rng, os.path.join(top, "again"), os.path.join(val, "reporting_topology.kml"), os.path.join(top, "one", "plan.yaml"), devs, ask)]
    return [case]


def again(rng, d, kml, conf, devs, ask):
    """The map of a plan is planned upon: what it proposes is now asked for."""
    t = load(kml, conf)
    site, pair = network_of(t)
    ask = {**ask, "extra": 0}
    end, val = plan(rng, d, kml, devs, ask, False)
    case = {"kind": "again", "site": site, "pair": pair,
            "cfg": {**ask, "node": {x["DEVICE_SKU"]: float(x["NODE_CAPEX"]) for x in devs}}, "end": end, "text": val if end != "planned" else "", "out": [], "same": True, "kml": []}
    if end == "planned":
        r, o = attempt(read, val)
        r2, m = attempt(back, os.path.join(val, "reporting_topology.kml"), os.path.join(d, "plan.yaml"))
        if "ok" == r == r2:
            case["out"], case["kml"] = [o], [m]
        else:
            case["end"], case["text"] = "crash", f"files: {r}: {o} {r2}: {m}"
    return case


def load(kml, conf):
    return extract_topology_from_file(kml, struct_objects_from_file(OPTIMIZATION, conf).device_list, None)


def back(kml, conf):
    t = load(kml, conf)
    return {"site": {s.name: [s.site_type.name, s.status_type.name, s.device.device_sku] for s in t.sites.values()},
            "link": sorted([x.tx_site.name, x.rx_site.name, x.link_type.name, x.status_type.name] for x in t.links.values())}


def run(ctx):
    cases = [c for q in ctx.pmap(one, range(ctx.pick(660, 8000))) for c in q]
    for c in cases:
        if c["end"] == "planned":
            ctx.nontrivial({"s": c["site"], "p": c["pair"], "c": c["cfg"]})
    ends = [c["end"] for c in cases]
    ctx.notes["plans"] = {"made": ends.count("planned"), "refused": ends.count("refused"), "again": [c["end"] for c in cases if c["kind"] == "again"].count("planned"),
                          "links_built": sum(1 for c in cases for o in c["out"] for x in o["link"] if x["status"] in ("PROPOSED", "EXISTING"))}
    ctx.judge("Delivered", cases, [f"plan#{k}" for k in range(len(cases))], op="DeliveredFails")
