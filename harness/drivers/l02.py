"""L02: the candidate network made from line-of-sight results (spec/Candidates.tla)."""
import os
import tempfile

import numpy as np
from osgeo import osr
from shapely.geometry import Point, Polygon

from harness import world as w
from harness.core import attempt
from harness.world import ST, DemandSite, Link, Sector, Topology
from terragraph_planner.common.configuration.configs import (
    GISDataParams,
    LOSParams,
    SiteDetectionParams,
)
from terragraph_planner.common.configuration.enums import LocationType, SiteType
from terragraph_planner.common.structs import UTMBoundingBox, ValidLOS
from terragraph_planner.common.topology_models.site import DetectedSite
from terragraph_planner.los.core import build_candidate_topology
from terragraph_planner.los.elevation import Elevation
from terragraph_planner.los.helper import (
    get_los_topology,
    infer_input_site_location,
)

LEVEL = "model_checking"
RULE = "a distinct set of sites, sight lines and limits with at least one sight line"
ASSUMPTIONS = ["sight lines between transmitting sites are given in both directions with one confidence (decided by L01)"]


def positions(rng, n, lat0, lon0):
    out, seen = [], set()
    while len(out) < n:
        x, y = rng.randint(-150, 150), rng.randint(-150, 150)
        if (x, y) in seen:
            continue
        seen.add((x, y))
        out.append(w.at(x, y, rng.choice([5.0, 5.0, 9.5, 30.0, 70.0, None if rng.random() < 0.1 else 6.0]), lat0, lon0))
    return out


def net(rng, _k):
    detect = rng.random() < 0.75
    dns = [w.device(f"DN_{k}", "DN") for k in range(rng.randint(1, 2))]
    cns = [w.device(f"CN_{k}", "CN") for k in range(rng.randint(1, 2))]
    lat0, lon0 = rng.choice([(37.48, -122.15), (-33.9, 151.2), (59.9, 10.7), (0.0, 0.0)])
    ne, nb = rng.randint(1, 5), rng.choice([0, 0, 1, 2, 3])
    nd = rng.randint(1, 7) if detect else 0
    pos = positions(rng, ne + nb + nd, lat0, lon0)
    sites, inp = [], []
    order = list(range(ne + nd + nb))  # entered, detected, base: as the planner lists them
    for k in order:
        loc = pos[k]
        if ne <= k < ne + nd:
            b = rng.randint(0, max(0, nd // 2))
            sites.append(DetectedSite(site_type=SiteType.DN, location=loc, building_id=b))
            inp.append({"kind": "DN", "sku": "any", "pos": k + 1, "status": "CANDIDATE", "entered": False, "base": False, "bld": b})
            continue
        kind = "POP" if k == 0 and rng.random() < 0.9 else rng.choice(["POP", "DN", "DN", "CN", "CN"])
        st = rng.choice(["CANDIDATE"] * 5 + ["EXISTING", "PROPOSED", "UNAVAILABLE", "UNREACHABLE"])
        roof = rng.random() < 0.5
        s = w.site(kind, loc, rng.choice(cns if kind == "CN" else dns), st, f"s{k}", building=-1 if roof else None)
        sites.append(s)
        inp.append({"kind": kind, "sku": s.device.device_sku, "pos": k + 1, "status": st, "entered": True, "base": k >= ne + nd, "bld": -1})
    base = Topology()
    for k in order[ne + nd:]:
        base.add_site(sites[k])
        if rng.random() < 0.5 and inp[k]["status"] in ("EXISTING", "PROPOSED", "CANDIDATE"):
            base.add_sector(Sector(sites[k], 0, 0, 0.0, status_type=sites[k].status_type))
    for a in order[ne + nd:]:
        for b in order[ne + nd:]:
            if a != b and inp[a]["kind"] != "CN" and rng.random() < 0.5:
                lst = "UNAVAILABLE"
                acts = {inp[a]["status"], inp[b]["status"]}
                if "UNAVAILABLE" not in acts and "UNREACHABLE" in acts:
                    lst = "UNREACHABLE"
                elif not acts & {"UNAVAILABLE", "UNREACHABLE"}:
                    lst = "CANDIDATE"
                if acts == {"UNAVAILABLE", "UNREACHABLE"}:
                    continue
                base.add_link(Link(sites[a], sites[b], status_type=ST[lst], is_wireless=rng.random() < 0.8, confidence_level=0.5))
    density = rng.choice([0.2, 0.3, 0.3, 0.5, 0.5, 0.9])
    los = []
    for a in order:
        for b in order[a + 1:]:
            if inp[a]["base"] and inp[b]["base"] or rng.random() > density:
                continue
            ka, kb = inp[a]["kind"], inp[b]["kind"]
            if {ka, kb} in ({"POP"}, {"CN"}) or inp[a]["bld"] == inp[b]["bld"] >= 0:
                continue
            conf = rng.choice([1.0, 0.7, 0.61])
            if kb == "CN" or ka != "CN" :
                los.append((a, b, conf))
            if ka == "CN" or kb != "CN":
                los.append((b, a, conf))
    rng.shuffle(los)
    rangeof = {t.device_sku: {r.device_sku: rng.choice([400, 400, 200, 120]) for r in dns + cns} for t in dns}
    mind, el = rng.choice([5, 5, 30, 60]), rng.choice([25.0, 10.0, 5.0, 89.0])
    p = LOSParams(
        device_list=dns + cns, minimum_los_distance=mind, maximum_los_distance=500, maximum_elevation_scan_angle=el,
        site_detection=SiteDetectionParams(dn_deployment=rng.random() < 0.5, detect_centers=True),
    )
    pairs = {(t, r): v for t, row in rangeof.items() for r, v in row.items()}
    was = {
        "sites": {i: (s, s.status_type) for i, s in base.sites.items()},
        "sectors": {i: (s, s.status_type) for i, s in base.sectors.items()},
        "links": {i: (l, l.status_type, l.is_wireless, l.confidence_level) for i, l in base.links.items()},
    }
    at = {(round(q.latitude, 9), round(q.longitude, 9)): k + 1 for k, q in enumerate(pos)}
    rec = {
        "in": inp, "pos": [{"lat": q.latitude, "lon": q.longitude, "alt": q.altitude} for q in pos],
        "los": [[a + 1, b + 1, v] for a, b, v in los], "detect": detect, "dnd": p.site_detection.dn_deployment,
        "dns": [d.device_sku for d in dns], "cns": [d.device_sku for d in cns], "range": rangeof, "min": float(mind), "el": el,
    }
    st, t = attempt(build_candidate_topology, p, base, list(sites), [ValidLOS(*x) for x in los], dict(pairs), detect)
    if st != "ok":
        return {"kind": "crash", "text": f"{st}: {t}", **rec}
    ids = list(t.sites)
    idx = {i: k + 1 for k, i in enumerate(ids)}
    out = []
    for i in ids:
        s = t.sites[i]
        out.append({
            "kind": s.site_type.name, "sku": s.device.device_sku, "pos": at.get((round(s.latitude, 9), round(s.longitude, 9)), 0),
            "status": s.status_type.name, "bld": -1 if s.building_id is None else s.building_id, "roof": s.location_type == LocationType.ROOFTOP,
        })
    kept = all(i in t.sites and t.sites[i] is s and s.status_type == v for i, (s, v) in was["sites"].items())
    kept &= all(i in t.sectors and t.sectors[i] is s and s.status_type == v for i, (s, v) in was["sectors"].items()) and set(t.sectors) == set(was["sectors"])
    kept &= all(i in t.links and t.links[i] is l and (l.status_type, l.is_wireless, l.confidence_level) == (a, b, d) for i, (l, a, b, d) in was["links"].items())
    return {
        "kind": "net", **rec, "out": out, "kept": kept,
        "base": [[idx[l.tx_site.site_id], idx[l.rx_site.site_id]] for l, *_ in was["links"].values() if l.tx_site.site_id in idx and l.rx_site.site_id in idx],
        "link": [
            {"tx": idx[l.tx_site.site_id], "rx": idx[l.rx_site.site_id], "status": l.status_type.name, "wireless": l.is_wireless,
             "conf": -1.0 if l.confidence_level is None else float(l.confidence_level)}
            for l in t.links.values()
        ],
    }


def raster(rng, loc, z, n=9, res=1.0):
    x0, y0 = loc.utm_x - rng.uniform(1.6, 5.4), loc.utm_y + rng.uniform(1.6, 5.4)
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(loc.utm_epsg)
    m = np.array([[z + 10 * k - r for k in range(n)] for r in range(n)], dtype=np.float32)
    e = Elevation(m, UTMBoundingBox(min_utm_x=int(x0) - 1, max_utm_x=int(x0) + n + 2, min_utm_y=int(y0) - n - 2, max_utm_y=int(y0) + 2),
                  res, res, x0, y0, sr, None)
    k, r = (loc.utm_x - x0) / res, (y0 - loc.utm_y) / res
    if min(abs(k - int(k) - 0.5), abs(r - int(r) - 0.5)) < 0.01:
        return None
    return e, float(m[int(r + 0.5), int(k + 0.5)]), m, int(r + 0.5), int(k + 0.5)


def place(rng, _k):
    loc = w.at(rng.uniform(-500, 500), rng.uniform(-500, 500), None, *rng.choice([(37.48, -122.15), (-33.9, 151.2)]))
    surf = terr = None
    sv = tv = None
    if rng.random() < 0.8:
        a = raster(rng, loc, rng.choice([0.0, 12.5, 100.0]))
        if a is None:
            return place(rng, _k)
        surf, sv = a[0], a[1]
        if rng.random() < 0.7:
            m = a[2] - np.float32(0)
            tv = sv - rng.choice([0.0, 1.5, 2.0, 2.5, 9.0])
            m = m.copy()
            m[a[3], a[4]] = tv
            terr = Elevation(m, surf.utm_bounding_box, 1.0, 1.0, surf.left_top_x, surf.left_top_y, surf.spatial_reference, None)
            tv = float(m[a[3], a[4]])
    alt = rng.choice([None, None, None, 33.25, 0.0])
    height = rng.choice([None, None, 4.5, 0.0])
    typ = rng.choice(["UNKNOWN", "UNKNOWN", "ROOFTOP", "STREET_LEVEL"])
    kind = rng.choice(["POP", "DN", "CN"])
    mounts = [rng.choice([1.5, 2.0, 0.25]), 5.0, 6.5, 7.75]
    st, v = attempt(infer_input_site_location, loc.latitude, loc.longitude, alt, height, LocationType[typ], SiteType[kind], surf, terr, *mounts)
    rec = {"type": typ, "site": kind, "alt": alt, "height": height, "surf": sv, "terr": tv}
    if st != "ok":
        return {"kind": "crash", "text": f"{st}: {v}", **rec}
    g, t = v
    return {
        "kind": "place", **rec, "roof": mounts[0], "pole_pop": mounts[1], "pole_dn": mounts[2], "pole_cn": mounts[3],
        "got_type": t.name, "got_alt": g.altitude, "moved": not (abs(g.latitude - loc.latitude) < 1e-9 and abs(g.longitude - loc.longitude) < 1e-9),
    }


def pairs(rng, _k):
    """Entered sites from a file inside a boundary, plus detected ones."""
    devs = [w.device("DN_A", "DN"), w.device("CN_A", "CN")]
    lat0, lon0 = 37.48, -122.15
    box = [w.at(x, y, None, lat0, lon0) for x, y in ((-200, -200), (200, -200), (200, 200), (-200, 200))]
    bound = Polygon([(q.longitude, q.latitude) for q in box])
    rows, inside = ["type,name,latitude,longitude,altitude"], []
    for k in range(rng.randint(1, 5)):
        kind = rng.choice(["POP", "DN", "CN"])
        q = w.at(*rng.choice([(rng.uniform(-190, 190), rng.uniform(-190, 190)), (rng.uniform(210, 400), 0.0)]), None, lat0, lon0)
        rows.append(f"{kind},e{k},{q.latitude!r},{q.longitude!r},{7.0 + k}")
        if bound.contains(Point(q.longitude, q.latitude)):
            inside.append(kind)
    det = [DetectedSite(SiteType.DN, w.at(rng.uniform(-100, 100), rng.uniform(-100, 100), 9.0 + k, lat0, lon0), k) for k in range(rng.randint(0, 3))]
    with tempfile.TemporaryDirectory() as d:
        f, kml = os.path.join(d, "sites.csv"), os.path.join(d, "b.kml")
        open(kml, "w").close()
        with open(f, "w") as fh:
            fh.write("\n".join(rows) + "\n")
        g = GISDataParams(site_file_path=f, boundary_polygon_file_path=kml, dsm_file_paths=[])
        st, v = attempt(get_los_topology, g, LOSParams(device_list=devs), bound, det, None, None)
    if st != "ok":
        return {"kind": "crash", "text": f"{st}: {v}", "rows": rows}
    sites, cand, zones, _b = v
    return {
        "kind": "pairs", "site": [{"kind": s.site_type.name, "new": True} for s in sites],
        "pair": [[a + 1, b + 1, both] for a, b, both in cand], "rows": rows, "inside": inside,
        "read": [s.site_type.name for s in sites[: len(sites) - len(det)]],
    }


def run(ctx):
    cases = ctx.pmap(net, range(ctx.pick(1500, 20000)))
    cases += ctx.pmap(place, range(ctx.pick(600, 4000)))
    cases += ctx.pmap(pairs, range(ctx.pick(150, 1000)))
    for c in cases:
        if c["kind"] == "net" and c["los"]:
            ctx.nontrivial({k: v for k, v in c.items() if k not in ("out", "link")})
    nets = [c for c in cases if c["kind"] == "net"]
    ctx.notes["networks"] = {"made": len(nets), "links": sum(len(c["link"]) for c in nets), "with_base": sum(1 for c in nets if c["base"])}
    ctx.judge("Candidates", cases, [f"{c['kind']}#{k}" for k, c in enumerate(cases)], op="CandidateFails")
