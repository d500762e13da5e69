"""K01: configuration documents and their meaning (spec/Config.tla).

Documents are written as YAML or JSON files - with any spelling of the names
and with blanks left in - and read with the planner's own loader.  Whether the
document has to be refused, and the value every setting and every device ends
up with, is decided by the specification's table of the documented template.
Every setting is swept over boundary values on its own; random documents
combine settings, devices, throughput tables and violations."""
import copy
import json
import os
import tempfile

import yaml

from harness.core import attempt
from terragraph_planner.common.configuration.enums import EnumParser
from terragraph_planner.common.configuration.utils import struct_objects_from_file

LEVEL = "model_checking"
RULE = "a distinct configuration document"
ASSUMPTIONS = ["documents give each setting a value of its documented type"]

FL = [-1.0, -0.01, 0.0, 0.0005, 0.25, 0.8, 0.999, 1.0, 1.5, 5.0, 4.99, 16.0, 25.5, 45.0, 89.9, 90.0, 90.5, 99.99, 100.0, 100.5, 179.9, 180.0, 180.5, 360.0, 361.0, 5e4]
IN = [-1, 0, 1, 2, 3, 4, 5, 6, 10, 15, 16, 100, 199, 200, 201]
# name -> (path in the document, kind, valid examples)
OPT = {}
for _n, _p, _k, _v in [
    ("maximum_eirp", "RADIO", "f", [20.0, 60.5, -3.0]),
    ("pop_site_capex", "NETWORK_DESIGN/FINANCIAL", "f", [0.0, 12.5]),
    ("cn_site_capex", "NETWORK_DESIGN/FINANCIAL", "f", [0.0, 99.0]),
    ("dn_site_capex", "NETWORK_DESIGN/FINANCIAL", "f", [0.0, 77.0]),
    ("budget", "NETWORK_DESIGN/FINANCIAL", "f", [0.0, 5e6]),
    ("pop_capacity", "NETWORK_DESIGN", "f", [0.5, 40.0]),
    ("oversubscription", "NETWORK_DESIGN", "f", [1.0, 2.5]),
    ("number_of_extra_pops", "NETWORK_DESIGN", "i", [0, 3]),
    ("demand_spacing", "NETWORK_DESIGN/DIMENSIONING", "f", [0.0, 40.0]),
    ("demand_connection_radius", "NETWORK_DESIGN/DIMENSIONING", "f", [0.0, 60.0]),
    ("demand", "NETWORK_DESIGN/DIMENSIONING", "f", [0.1, 1.2]),
    ("dn_dn_sector_limit", "NETWORK_DESIGN", "i", [1, 2, 3]),
    ("dn_total_sector_limit", "NETWORK_DESIGN", "i", [3, 8]),
    ("maximum_number_hops", "NETWORK_DESIGN", "i", [1, 9]),
    ("diff_sector_angle_limit", "NETWORK_DESIGN", "f", [0.0, 30.0, 180.0]),
    ("near_far_length_ratio", "NETWORK_DESIGN", "f", [0.5, 4.0]),
    ("near_far_angle_limit", "NETWORK_DESIGN", "f", [0.0, 33.0, 180.0]),
    ("number_of_channels", "NETWORK_DESIGN", "i", [1, 4]),
    ("backhaul_link_redundancy_ratio", "NETWORK_DESIGN", "f", [0.0, 0.5, 1.0]),
    ("num_threads", "NETWORK_DESIGN", "i", [1, 8]),
    ("min_cost_rel_stop", "NETWORK_DESIGN", "f", [0.1, -2.0]),
    ("redundancy_rel_stop", "NETWORK_DESIGN", "f", [0.1]),
    ("max_coverage_rel_stop", "NETWORK_DESIGN", "f", [0.2]),
    ("interference_rel_stop", "NETWORK_DESIGN", "f", [0.3]),
    ("pop_proposal_rel_stop", "NETWORK_DESIGN", "f", [0.4]),
    ("min_cost_max_time", "NETWORK_DESIGN", "i", [1, 7]),
    ("redundancy_max_time", "NETWORK_DESIGN", "i", [1, 8]),
    ("max_coverage_max_time", "NETWORK_DESIGN", "i", [1, 9]),
    ("interference_max_time", "NETWORK_DESIGN", "i", [1, 10]),
    ("pop_proposal_max_time", "NETWORK_DESIGN", "i", [1, 11]),
    ("demand_site_max_time", "NETWORK_DESIGN", "i", [1, 12]),
    ("availability_max_time", "NETWORK_DESIGN", "i", [1, 13]),
    ("availability_sim_time", "NETWORK_DESIGN", "f", [10.0]),
    ("availability_seed", "NETWORK_DESIGN", "i", [-1, 5]),
    ("enable_cn_demand", "NETWORK_DESIGN/DIMENSIONING", "b", [True, False]),
    ("enable_uniform_demand", "NETWORK_DESIGN/DIMENSIONING", "b", [True, False]),
    ("enable_manual_demand", "NETWORK_DESIGN/DIMENSIONING", "b", [True, False]),
    ("maximize_common_bandwidth", "NETWORK_DESIGN", "b", [True, False]),
    ("always_active_pops", "NETWORK_DESIGN", "b", [True, False]),
    ("enable_legacy_redundancy_method", "NETWORK_DESIGN", "b", [True, False]),
    ("redundancy_level", "NETWORK_DESIGN", "e", ["none", "Low", "MEDIUM", "hIgh"]),
    ("topology_routing", "NETWORK_DESIGN", "e", ["Shortest_Path", "MCS_COST_PATH", "dpa_path"]),
    ("candidate_topology_file_path", "NETWORK_DESIGN", "p", ["a.kml", "b.d/x.KMZ", "t.zip"]),
]:
    OPT[_n] = (_p, _k, _v)
PROJECT = {
    "carrier_frequency": ("RADIO", "f", [28000.0, 70000.0]),
    "thermal_noise_power": ("RADIO", "f", [-90.0, -77.5]),
    "noise_figure": ("RADIO", "f", [0.0, 3.5]),
    "rain_rate": ("RADIO", "f", [0.0, 12.0]),
    "link_availability_percentage": ("RADIO", "f", [0.0, 99.0, 99.999]),
}
OPT.update(PROJECT)
LOS = dict(PROJECT)
for _n, _k, _v in [
    ("minimum_mcs_of_backhaul_links", "i", [0, 5]),
    ("minimum_mcs_of_access_links", "i", [0, 4]),
    ("maximum_los_distance", "i", [120, 400]),
    ("minimum_los_distance", "i", [5, 30]),
    ("maximum_elevation_scan_angle", "f", [0.0, 12.5, 90.0]),
    ("mounting_height_above_rooftop", "f", [0.0, 3.0]),
    ("default_dn_height_on_pole", "f", [0.0, 6.0]),
    ("default_cn_height_on_pole", "f", [0.0, 7.0]),
    ("default_pop_height_on_pole", "f", [0.0, 8.0]),
    ("use_ellipsoidal_los_model", "b", [True, False]),
    ("fresnel_radius", "f", [0.1, 2.0]),
    ("los_confidence_threshold", "f", [0.0, 0.5, 1.0]),
    ("num_processors", "i", [1, 4]),
]:
    LOS[_n] = ("LINE_OF_SIGHT", _k, _v)
LOS["maximum_eirp"] = ("RADIO", "f", [20.0])
for _n, _k, _v in [
    ("dn_deployment", "b", [True, False]),
    ("detect_highest", "b", [True, False]),
    ("detect_centers", "b", [True, False]),
    ("detect_corners", "b", [True, False]),
    ("max_corner_angle", "f", [0.5, 120.0]),
]:
    LOS[_n] = ("LINE_OF_SIGHT/SITE_DETECTION", _k, _v)
SYS = {
    "output_dir": ("SYSTEM", "s", ["./x", "/y/z"]),
    "debug_mode": ("SYSTEM", "b", [True, False]),
    "logger_level": ("SYSTEM", "e", ["debug", "NOTSET", "Info", "WARNING", "error", "CRITICAL"]),
    "log_file": ("SYSTEM", "s", ["a.log"]),
    "log_to_stderr": ("SYSTEM", "b", [True, False]),
}
DATA = {
    "boundary_polygon_file_path": ("DATA", "p", ["b.kml", "b.KMZ", "b.csv"]),
    "building_outline_file_path": ("DATA", "p", ["b.kml", "b.kmz", "b.zip", "b.shp"]),
    "dsm_file_paths": ("DATA", "l", [["d.tif"], ["d.tif", "e.TIFF"], ["d.tif", "e.png"], ["e.jpg", "d.tif"]]),
    "dtm_file_path": ("DATA", "p", ["d.tif", "d.tiff", "d.TIF", "d"]),
    "dhm_file_path": ("DATA", "p", ["d.tif", "d.png"]),
    "site_file_path": ("DATA", "p", ["s.kml", "s.kmz", "s.csv", "s.zip"]),
    "base_topology_file_path": ("DATA", "p", ["t.kml", "t.kmz", "t.csv"]),
}
TABLES = {"optimizer": OPT, "los": LOS, "system": SYS, "data": DATA}
NAME = {"optimizer": "OPTIMIZATION", "los": "LINE_OF_SIGHT", "system": "SYSTEM", "data": "DATA"}
DEV = {"node_capex": ("f", [0.0, 80.5]), "number_of_nodes_per_site": ("i", [1, 2])}
SEC = {
    "antenna_boresight_gain": ("f", [0.0, 22.0]),
    "maximum_tx_power": ("f", [10.0, 43.0]),
    "number_sectors_per_node": ("i", [1, 2]),
    "horizontal_scan_range": ("f", [0.0, 20.0, 45.0]),
    "tx_diversity_gain": ("f", [0.0, 3.0]),
    "rx_diversity_gain": ("f", [0.0, 2.0]),
    "tx_miscellaneous_loss": ("f", [0.0, 1.0]),
    "rx_miscellaneous_loss": ("f", [0.0, 1.5]),
    "minimum_mcs_level": ("i", [0, 3, 5, 9]),
    "minimum_tx_power": ("f", [4.0, 9.0, -5.0]),
}
JUNK = ["COLOUR", "BUDGETS", "RAINRATE", "DEVICE", "EXTRA", "SECTOR_PARAM"]
POOL = {"f": FL, "i": IN, "b": [True, False], "e": ["FOO", "", "Medium_", "INFOO"]}


def text(v):
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, EnumParser):
        return v.name
    if isinstance(v, (list, tuple)):
        return "|".join(map(str, v)) if v else "none"
    if isinstance(v, (int, float)):
        return repr(float(v))
    return str(v)


def want(kind, v):
    return v.upper() if kind == "e" else text(v)


def spell(rng, name):
    r = rng.random()
    if r < 0.5:
        return name
    out = "".join(ch.lower() if rng.random() < 0.5 else ch for ch in name) if r < 0.8 else name.lower()
    return out + " " if rng.random() < 0.05 else " " + out if rng.random() < 0.05 else out


def table(rng, sick):
    n = rng.randint(1, 6)
    m, s, b, k = rng.randint(0, 4), rng.uniform(0, 6), rng.choice([0, 10]), 0.0
    rows = []
    for _ in range(n):
        rows.append([m, round(s, 2), round(b, 1), round(k, 1)])
        m += rng.randint(1, 2)
        s += rng.uniform(0.3, 3)
        b += rng.choice([50, 200, 0]) if rng.random() < 0.9 else 0
        k += rng.choice([0, 0, 1, 2.5])
    if sick and n > 1:
        i, j = rng.sample(range(n), 2)
        q = rng.randint(0, 3)
        rows[i][q], rows[j][q] = rows[j][q], rows[i][q]
    elif sick and rng.random() < 0.5:
        rows = []
    return rows


def write_table(rng, path, rows, back):
    cols = ["mcs", "snr", "mbps"] + (["tx_backoff"] if back else [])
    order = list(range(len(cols)))
    rng.shuffle(order)
    head = {"mcs": ["mcs", " MCS", "Mcs level"], "snr": ["snr", "SNR (dB) "], "mbps": ["mbps", "Mbps"], "tx_backoff": ["tx_backoff", " Tx_Backoff"]}
    with open(path, "w") as f:
        f.write(",".join(rng.choice(head[cols[i]]) for i in order) + "\n")
        for r in rows:
            f.write(",".join(str(r[i]) for i in order) + "\n")


class Doc:
    """One document with its reading by the template."""

    def __init__(self, target, rng, folder, plain=False):
        self.t, self.rng, self.dir, self.plain = target, rng, folder, plain
        self.given, self.ext, self.dev, self.illegal = {}, {}, [], False
        self.tree = {}
        self.files = 0

    def sp(self, n):
        return n if self.plain else spell(self.rng, n)

    def at(self, path):
        cur = self.tree
        for p in path.split("/"):
            for k in cur:
                if k.strip().upper() == p:
                    break
            else:
                k = p if self.plain else self.sp(p)
                cur[k] = {}
            if cur[k] is None:
                cur[k] = {}
            cur = cur[k]
        return cur

    def put(self, n, v):
        path, kind, _ = TABLES[self.t][n]
        self.at(path)[self.sp(n.upper())] = v
        if v is None:
            return
        self.given[n] = want(kind, v)
        if kind in "pl":
            self.ext[n] = [x.split(".")[-1].lower() for x in (v if kind == "l" else [v])]

    def device(self, sku, dev=(), sec=(), ty=None, rows=None, back=True, nosec=False):
        d, given = {self.sp("DEVICE_SKU"): sku}, {"device_sku": sku}
        if ty is not None:
            d[self.sp("DEVICE_TYPE")] = ty
            given["device_type"] = ty.upper()
        for k, v in dict(dev).items():
            d[self.sp(k.upper())] = v
            if v is not None:
                given[k] = text(v)
        s = {}
        for k, v in dict(sec).items():
            s[self.sp(k.upper())] = v
            if v is not None:
                given[k] = text(v)
        if rows is not None:
            self.files += 1
            p = os.path.join(self.dir, f"m{self.files}.csv")
            write_table(self.rng, p, rows, back)
            s[self.sp("MCS_MAP_FILE_PATH")] = p
        if not (nosec and not s):
            d[self.sp("SECTOR_PARAMS")] = s or self.rng.choice([{}, None])
        self.at("RADIO").setdefault("DEVICE_LIST", []).append(d)
        tab = [] if rows is None else [[{"mcs": text(r[0]), "snr": text(r[1]), "mbps": text(r[2]), "back": text(r[3] if back else 0)} for r in rows]]
        self.dev.append({"given": given, "rows": tab, "key": sku.casefold()})

    def junk(self):
        self.illegal = True
        spots = [self.tree]
        for v in list(self.tree.values()):
            if isinstance(v, dict):
                spots.append(v)
                for u in v.values():
                    if isinstance(u, dict):
                        spots.append(u)
                    elif isinstance(u, list):
                        for x in u:
                            if isinstance(x, dict):
                                spots += [x] + [y for y in x.values() if isinstance(y, dict)]
        s = self.rng.choice(spots)
        s[self.rng.choice(JUNK)] = self.rng.choice([1, "x", None])


def values(o, names):
    return {n: text(getattr(o, n)) for n in names}


def read(o, target):
    v = {}
    for n, (path, _, _) in TABLES[target].items():
        src = o.site_detection if path.endswith("SITE_DETECTION") else o
        v[n] = text(getattr(src, n))
    devs = []
    if target in ("optimizer", "los"):
        for d in o.device_list:
            s = d.sector_params
            x = values(s, list(SEC) + list(PROJECT))
            x.update(values(d, ["device_sku", "device_type", "node_capex", "number_of_nodes_per_site"]))
            devs.append({"value": x, "table": [{"mcs": text(r.mcs), "snr": text(r.snr), "mbps": text(r.mbps), "back": text(r.tx_backoff)} for r in s.mcs_map]})
    return v, devs


def again(o, target):
    """Written out as settings and read again; a copy with one change differs."""
    try:
        d = o.to_dict()
        p = type(o).from_dict(json.loads(json.dumps(d)))
        if read(p, target) != read(o, target) or not (p == o) or p != o:
            return "different"
        for n, v in vars(o).items():
            if isinstance(v, (int, float, bool, str)):
                q = copy.deepcopy(p)
                setattr(q, n, (not v) if isinstance(v, bool) else (v + 1 if not isinstance(v, str) else v + "x"))
                if q == o or o == q:
                    return "different"
        return "same"
    except Exception:  # noqa: B902
        return "raised"


def judge_case(doc):
    path = os.path.join(doc.dir, "c" + doc.rng.choice([".yaml", ".yml", ".json"]))
    with open(path, "w") as f:
        if path.endswith("json"):
            json.dump(doc.tree, f)
        else:
            yaml.safe_dump(doc.tree, f, sort_keys=False)
    st, o = attempt(struct_objects_from_file, NAME[doc.t], path)
    c = {"target": doc.t, "given": doc.given or {"nothing": "none"}, "ext": doc.ext or {"nothing": []}, "illegal": doc.illegal, "dev": doc.dev,
         "status": st, "value": {"nothing": "none"}, "devs": [], "again": "same"}
    if st == "ok":
        c["value"], c["devs"] = read(o, doc.t)
        c["again"] = again(o, doc.t)
    else:
        c["text"] = str(o)[:120]
    return c


def base(doc):
    if doc.t in ("optimizer", "los"):
        doc.device("X1")
        if doc.t == "optimizer":
            doc.at("NETWORK_DESIGN")
        else:
            doc.at("LINE_OF_SIGHT")
    if doc.t == "data":
        doc.put("boundary_polygon_file_path", "b.kml")


def sweep():
    """(target, apply) for each setting and value on its own."""
    out = []
    for t, tab in TABLES.items():
        for n, (_, kind, ok) in tab.items():
            pool = list(POOL.get(kind, [])) + list(ok) + [None]
            out += [(t, "one", n, v) for v in pool if not (t == "data" and n.startswith("boundary") and v is None)]
    for k, (kind, ok) in DEV.items():
        out += [("optimizer", "dev", k, v) for v in POOL[kind] + ok + [None]]
    for k, (kind, ok) in SEC.items():
        out += [(t, "sec", k, v) for v in POOL[kind] + ok + [None] for t in ("optimizer", "los")]
    return out


def one(rng, item):
    t, how, n, v = item
    with tempfile.TemporaryDirectory(prefix="k01") as folder:
        d = Doc(t, rng, folder, plain=rng.random() < 0.5)
        if how == "one":
            if n in ("enable_uniform_demand",) and v:
                d.put("demand_spacing", 30.0)
            if n in ("enable_uniform_demand", "enable_manual_demand") and v:
                d.put("demand_connection_radius", 30.0)
            if n == "enable_cn_demand" and v is False:
                d.put("enable_manual_demand", True)
                d.put("demand_connection_radius", 9.0)
            base(d)
            d.put(n, v)
        elif how == "dev":
            d.device("Q", dev={n: v}, ty=rng.choice(["DN", "CN", None]), sec={"horizontal_scan_range": 1.0})
            d.at("NETWORK_DESIGN")
        else:
            d.device("Q", sec={n: v, **({"horizontal_scan_range": 10.0} if n == "number_sectors_per_node" else {})}, dev={"number_of_nodes_per_site": 1})
            d.at("NETWORK_DESIGN" if t == "optimizer" else "LINE_OF_SIGHT")
        return judge_case(d)


def mixed(rng, k):
    t = rng.choice(["optimizer", "optimizer", "optimizer", "los", "los", "data", "system"])
    with tempfile.TemporaryDirectory(prefix="k01") as folder:
        d = Doc(t, rng, folder, plain=rng.random() < 0.3)
        bad = rng.random() < 0.45
        tab = TABLES[t]
        names = rng.sample(list(tab), rng.randint(0, min(len(tab), 12)))
        if t in ("optimizer", "los"):
            skus = ["Alpha", "beta", "Gamma 2", "d-4"]
            sick = bad and rng.random() < 0.4
            for j in range(rng.randint(0 if sick and rng.random() < 0.3 else 1, 3)):
                ty = rng.choice(["DN", "CN", "dn", "Cn", None])
                dv = {}
                if rng.random() < 0.4:
                    dv["node_capex"] = rng.choice(DEV["node_capex"][1])
                if rng.random() < 0.4:
                    dv["number_of_nodes_per_site"] = 1 if ty in ("CN", "Cn") else rng.choice([1, 2])
                sc = {x: rng.choice(SEC[x][1]) for x in rng.sample(list(SEC), rng.randint(0, 5))}
                if sick and rng.random() < 0.5:
                    x = rng.choice(list(SEC) + list(DEV))
                    (sc if x in SEC else dv)[x] = rng.choice(POOL[(SEC | DEV)[x][0]])
                if rng.random() < 0.15:
                    (sc or dv or {"z": 0}).update({rng.choice(list(SEC) if sc else list(DEV)): None})
                if sick and rng.random() < 0.2:
                    ty = rng.choice(["POP", "XX", "CN"])
                rows = table(rng, sick and rng.random() < 0.5) if rng.random() < 0.4 else None
                sku = skus[j]
                if sick and rng.random() < 0.3:
                    sku = rng.choice([skus[0], skus[0].lower(), skus[0].upper(), ""])
                d.device(sku, dv, sc, ty, rows, rng.random() < 0.7, rng.random() < 0.5)
            if not d.dev:
                d.at("RADIO")["DEVICE_LIST"] = []
            d.at("NETWORK_DESIGN" if t == "optimizer" else "LINE_OF_SIGHT")
            if rng.random() < 0.5:
                d.at("LINE_OF_SIGHT" if t == "optimizer" else "NETWORK_DESIGN")
        if t == "data":
            if not bad or rng.random() < 0.8:
                names = ["boundary_polygon_file_path"] + [n for n in names if n[:4] != "boun"]
            if not bad and "base_topology_file_path" in names:
                names = [n for n in names if n != "building_outline_file_path"]
        for n in names:
            ok = tab[n][2]
            if not bad and tab[n][1] in "pl":
                ok = ok[:2] if n not in ("dtm_file_path", "dhm_file_path") else ok[:1]
            d.put(n, None if rng.random() < 0.1 and not (t == "data" and n[:4] == "boun") else rng.choice(ok))
        if t == "optimizer" and not bad:
            if d.given.get("enable_uniform_demand") == "true":
                d.put("demand_spacing", 25.0) if "demand_spacing" not in names else None
            if d.given.get("enable_cn_demand") == "false" and "enable_manual_demand" not in names:
                d.put("enable_manual_demand", True)
        if bad and rng.random() < 0.5 and names:
            n = rng.choice(names)
            kind = tab[n][1]
            if kind in POOL and n in d.given:
                for k2 in list(d.at(tab[n][0])):
                    if k2.strip().upper() == n.upper():
                        d.at(tab[n][0])[k2] = v = rng.choice(POOL[kind])
                        d.given[n] = want(kind, v)
        elif bad and rng.random() < 0.5:
            d.junk()
        for k2 in list(d.tree):  # a section without settings may be blank
            if d.tree[k2] == {} and rng.random() < 0.5:
                d.tree[k2] = None
        return judge_case(d)


def key_of(kind, c, k):
    return f"{kind}#{k}"


def run(ctx):
    sw = sweep()
    cases = ctx.pmap(one, sw)
    keys = [f"sweep/{t}/{n}={v}" for t, _, n, v in sw]
    n = ctx.pick(2500, 30000)
    more = ctx.pmap(mixed, range(n))
    cases += more
    keys += [f"mixed#{k}" for k in range(n)]
    ctx.judge("Config", cases, keys)
    ok = 0
    for c in cases:
        ok += c["status"] == "ok"
        ctx.nontrivial([c["target"], c["given"], c["dev"], c["illegal"]])
    ctx.notes["accepted"] = ok
    ctx.notes["refused"] = len(cases) - ok
