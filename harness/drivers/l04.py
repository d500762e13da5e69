"""L04: candidate networks generated from files (spec/Generate.tla = Sight + Candidates).

Small worlds (an area, terrain, buildings and walls as elevation grids, outlines,
entered sites, exclusion zones, base networks) are written to files, the whole
generation runs on them, and the specification composes the sight verdicts and
the selection rules into the networks that may come out.
"""
import math
import multiprocessing
import os
import shutil
import tempfile

import numpy as np
from osgeo import ogr, osr
from shapely.geometry import Point, Polygon

from harness import world as w
from harness.core import attempt
from terragraph_planner.common.configuration.configs import (
    GISDataParams,
    LOSParams,
    SiteDetectionParams,
)
from terragraph_planner.common.data_io.utils import extract_topology_from_file
from terragraph_planner.common.geos import TransformerLib
from terragraph_planner.common.structs import UTMBoundingBox
from terragraph_planner.common.utils import current_system_params
from terragraph_planner.los.core import generate_candidate_topology
from terragraph_planner.los.elevation import Elevation
from terragraph_planner.common.data_io.elevation_loader import ElevationLoader
from terragraph_planner.los.helper import get_max_los_dist_for_device_pairs

LEVEL = "model_checking"
RULE = "a distinct world and configuration"
ASSUMPTIONS = ["range of a pair of devices as decided by L03", "a grid column stands at its cell's corner or centre (G01's finding)"]
PLACES = [(32610, 551000, 4148000), (32756, 334000, 6251000), (32632, 597000, 6642000), (32610, 551003, 4148001)]


class World:
    def __init__(self, rng):
        self.rng = rng
        self.epsg, self.x0, self.y0 = rng.choice(PLACES)
        self.back = TransformerLib.get_tranformer(self.epsg, 4326)
        self.r = rng.choice([2, 4, 4, 5])
        self.w, self.h = self.r * rng.randint(90 // self.r, 140 // self.r), self.r * rng.randint(90 // self.r, 140 // self.r)
        self.ground = rng.choice([0.0, 12.5, 100.0])
        self.pad = 3 * self.r
        self.nx, self.ny = self.w // self.r + 6, self.h // self.r + 6
        self.top = np.full((self.ny, self.nx), self.ground)
        self.taken = []  # (area, height) of what stands around

    def ll(self, x, y):
        lon, lat = self.back.transform(self.x0 + x, self.y0 + y)
        return lat, lon

    def cells(self, area):
        """cells whose corner or centre lies in the area"""
        out = []
        for q in range(self.ny):
            for k in range(self.nx):
                x, y = -self.pad + k * self.r, self.h + self.pad - q * self.r
                if area.contains(Point(x, y)) or area.contains(Point(x + self.r / 2, y - self.r / 2)):
                    out.append((q, k))
        return out

    def raise_(self, area, z):
        g = area.buffer(0)
        if any(g.buffer(2.2 * self.r).intersects(a) for a, _ in self.taken):
            return False
        for q, k in self.cells(g):
            self.top[q, k] = z
        self.taken.append((g, z))
        return True

    def spot(self):
        """a place well off every edge, and the height there"""
        for _ in range(60):
            x, y = self.rng.uniform(0, self.w), self.rng.uniform(0, self.h)
            p = Point(x, y)
            if not self.area.buffer(-3.5 * self.r).contains(p):
                continue
            near = [(a, z) for a, z in self.taken if a.distance(p) < 2.2 * self.r]
            if not near:
                return x, y, self.ground
            a, z = near[0]
            if a.buffer(-2.2 * self.r).contains(p) and self.rng.random() < 0.8:
                return x, y, z
        return None


def triangle(rng, wd, big):
    for _ in range(40):
        cx, cy, rad = rng.uniform(0, wd.w), rng.uniform(0, wd.h), rng.uniform(13, 20) if big else rng.uniform(4, 5)
        a = rng.uniform(0, 7)
        ang = [a, a + rng.uniform(1.7, 2.4), a + rng.uniform(3.9, 4.5)]
        t = [(cx + rad * math.cos(q), cy + rad * math.sin(q)) for q in ang]
        if wd.area.buffer(-4 * wd.r).contains(Polygon(t)):
            return t
    return None


def kml(path, body):
    with open(path, "w") as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><name>d</name>' + body + "</Document></kml>")
    return path


def area_kml(ring):
    c = " ".join(f"{lon!r},{lat!r},0" for lat, lon in list(ring) + [ring[0]])
    return f"<Placemark><name>z</name><Polygon><outerBoundaryIs><LinearRing><coordinates>{c}</coordinates></LinearRing></outerBoundaryIs></Polygon></Placemark>"


def tif(wd, path, v):
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(wd.epsg)
    x, y = wd.x0 - wd.pad, wd.y0 + wd.h + wd.pad
    box = UTMBoundingBox(min_utm_x=x, max_utm_x=x + wd.nx * wd.r, min_utm_y=y - wd.ny * wd.r, max_utm_y=y)
    ElevationLoader().write(path, Elevation(v.astype(np.float32), box, wd.r, wd.r, x, y, sr, None))
    return path


def shp(d, wd, rings):
    import zipfile

    sr = osr.SpatialReference()
    utm = wd.rng.random() < 0.5
    sr.ImportFromEPSG(wd.epsg if utm else 4326)
    sr.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    ds = ogr.GetDriverByName("ESRI Shapefile").CreateDataSource(os.path.join(d, "o.shp"))
    lay = ds.CreateLayer("o", srs=sr, geom_type=ogr.wkbPolygon)
    for r in rings:
        pts = [(wd.x0 + x, wd.y0 + y) if utm else wd.ll(x, y)[::-1] for x, y in r + [r[0]]]
        f = ogr.Feature(lay.GetLayerDefn())
        f.SetGeometry(ogr.CreateGeometryFromWkt("POLYGON ((" + ",".join(f"{x!r} {y!r}" for x, y in pts) + "))"))
        lay.CreateFeature(f)
    ds = None
    p = os.path.join(d, "o.zip")
    with zipfile.ZipFile(p, "w") as z:
        for e in ("shp", "shx", "dbf", "prj"):
            z.write(os.path.join(d, "o." + e), "o." + e)
    return p


def point(s, lat, lon):
    data = f'<Data name="device_sku"><value>{s["sku"]}</value></Data>'
    if s["said"]:
        data += f'<Data name="location_type"><value>{s["type"]}</value></Data>'
    if s["alt"] is not None:
        m, z = "<altitudeMode>absolute</altitudeMode>", f",{s['alt']!r}"
    elif s["height"] is not None:
        m, z = "<altitudeMode>relativeToGround</altitudeMode>", f",{s['height']!r}"
    else:
        m, z = "", ""
    return (f"<Placemark><name>{s['name']}</name><ExtendedData>{data}</ExtendedData><Point>{m}"
            f"<coordinates>{lon!r},{lat!r}{z}</coordinates></Point></Placemark>")


FAULTS = ["no_cn", "no_dn", "bow_tie", "two_areas", "no_area"]


def make(rng, k, d):
    wd = World(rng)
    W, H = wd.w, wd.h
    i, c1, c2 = 0.5, rng.uniform(5, 25), rng.uniform(5, 25)
    ring = [(i, i), (W - i, i), (W - i, H - c1), (W - c2, H - i), (i, H - i)] if rng.random() < 0.5 else [(i, c1), (c2, i), (W - i, i), (W - i, H - i), (i, H - i)]
    wd.area = Polygon(ring)
    layers = rng.choice([("dsm",), ("dsm", "dtm"), ("dtm", "dhm"), ("dsm", "dhm"), ("dtm",), (), ("dsm", "dtm", "dhm")])
    surfed = "dsm" in layers or "dhm" in layers and "dtm" in layers
    terred = "dtm" in layers or "dhm" in layers and "dsm" in layers
    detect = rng.random() < 0.6
    crowd = k % 40 == 39  # more pairs of sites than are looked at in one batch
    if crowd:
        layers, surfed, terred, detect = (), False, False, False
    fault = rng.choice(FAULTS) if rng.random() < 0.08 and not crowd else "none"
    if fault in ("no_cn", "no_dn"):
        detect = True
    rings = []
    for q in range(rng.choice([1, 2, 2, 3])):
        t = triangle(rng, wd, rng.random() < 0.85)
        if t and wd.raise_(Polygon(t).buffer(1.6 * wd.r), wd.ground + rng.choice([6.0, 9.5, 15.0])):
            rings.append(t)
    for q in range(rng.randint(0, 5)):  # walls, and what is too low to be a building
        x, y, a, n = rng.uniform(5, W - 5), rng.uniform(5, H - 5), rng.uniform(0, 7), rng.uniform(8, 60)
        u = (math.cos(a), math.sin(a))
        m = 1.1 * wd.r
        t = Polygon([(x + s * m * -u[1] + e * n * u[0], y + s * m * u[0] + e * n * u[1]) for s, e in ((-1, 0), (1, 0), (1, 1), (-1, 1))])
        wd.raise_(t, wd.ground + rng.choice([1.0, 1.5, 4.0, 30.0, 60.0]))
    weak = lambda: dict(maximum_tx_power=rng.choice([0.0, 3.0, 10.0]), minimum_tx_power=0.0, antenna_boresight_gain=rng.choice([14.0, 17.0, 20.0]))
    far = rng.randint(0, 1)  # which of the two reaches farther
    dns = [w.device(f"DN_{k + 1}", "DN", **({} if k == far else weak())) for k in (0, 1)] if rng.random() < 0.5 else [w.device("DN_1", "DN")]
    cns = [w.device("CN_1", "CN", **(weak() if rng.random() < 0.3 else {}))]
    if fault == "no_cn":
        cns = []
    if fault == "no_dn":
        dns = []
    devs = dns + cns
    rng.shuffle(devs)
    pos, cand = [], []
    levels = not detect and rng.random() < 0.5  # without a surface: all sites have an altitude, or none

    def put(x, y, h):
        lat, lon = wd.ll(x, y)
        pos.append({"lat": lat, "lon": lon, "x": wd.x0 + x, "y": wd.y0 + y, "h": h, "base": wd.ground})
        return len(pos)

    def enter(src, n, kinds, stats):
        q = wd.spot()
        if src == "file" and rng.random() < 0.15:  # beyond the area
            q = (rng.choice([-40.0, -1.0, W + 1.5, W + 30.0]), rng.uniform(-20, H + 20), wd.ground)
        if q is None:
            return
        p = put(*q)
        kind = rng.choice(kinds)
        pool = [v.device_sku for v in (cns if kind == "CN" else dns)]
        if not pool:
            return
        s = {"kind": kind, "sku": rng.choice(pool), "pos": p, "status": rng.choice(stats), "src": src, "bld": -1,
             "type": rng.choice(["UNKNOWN", "UNKNOWN", "ROOFTOP" if q[2] > wd.ground + 5 else "UNKNOWN", "STREET_LEVEL"]), "alt": None, "height": None, "name": f"{src}{n}", "said": True}
        if s["type"] == "UNKNOWN" and (src == "base" or ext == "kml") and rng.random() < 0.5:
            s.update(type="STREET_LEVEL", said=False)  # what a placemark is that does not say
        m = rng.random()
        if not surfed:
            m = 0 if levels else 1
        if m < 0.2:
            s["alt"] = q[2] + rng.choice([4.0, 8.0, 20.25])
        elif m < 0.4:
            s["height"] = rng.choice([4.0, 7.5, 12.0])
        cand.append(s)

    ext = rng.choice(["kml", "kml", "csv"])
    for q in range(rng.randint(70, 80) if crowd else rng.randint(2, 6)):
        enter("file", q, ["POP"] if q == 0 else ["POP", "DN", "DN", "CN", "CN"], ["CANDIDATE"] * 4 + (["EXISTING", "UNAVAILABLE"] if ext == "kml" else []))
    based = not detect and rng.random() < 0.5 and not crowd
    if based:
        for q in range(rng.randint(1, 3)):
            enter("base", q, ["POP", "DN", "CN"], ["EXISTING", "CANDIDATE", "PROPOSED", "UNAVAILABLE"])
    centers, corners = rng.choice([(True, False), (False, True), (True, True), (True, True)])
    dnd = rng.random() < 0.6 or fault == "no_dn"
    if detect:
        for b, t in enumerate(rings):
            z = next(h for a, h in wd.taken if a.contains(Point(t[0])))
            mid = (sum(q[0] for q in t) / 3, sum(q[1] for q in t) / 3)
            for src, q in [("corner", q) for q in t] + [("centre", mid)]:
                cand.append({"kind": "DN", "sku": "any", "pos": put(*q, z), "status": "CANDIDATE", "src": src, "bld": b + 1,
                             "type": "ROOFTOP", "alt": None, "height": None, "name": ""})
    # files
    if ext == "csv":
        rows = ["type,status,sku,name,lat,lon,altitude,height,location_type"]
        for s in cand:
            if s["src"] == "file":
                p = pos[s["pos"] - 1]
                if s["type"] == "UNKNOWN":
                    t = ""
                else:
                    t = s["type"]
                rows.append(",".join([s["kind"], s["status"], s["sku"], s["name"], repr(p["lat"]), repr(p["lon"]),
                                      "" if s["alt"] is None else repr(s["alt"]), "" if s["height"] is None else repr(s["height"]), t]))
        sites = os.path.join(d, "sites.csv")
        with open(sites, "w") as f:
            f.write("\n".join(rows) + "\n")
        zones = []
    else:
        zones = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            x, y, a = rng.uniform(-5, W), rng.uniform(-5, H), rng.uniform(3, 12)
            zones.append([(x, y), (x + a, y + rng.uniform(-2, 2)), (x + a * rng.uniform(0.2, 0.8), y + a)])
        groups = {}
        for s in cand:
            if s["src"] == "file":
                groups.setdefault((s["status"], s["kind"]), []).append(s)
        body = "".join(f"<Folder><name>{st}</name>" + "".join(
            f"<Folder><name>{kd} sites</name>" + "".join(point(s, pos[s["pos"] - 1]["lat"], pos[s["pos"] - 1]["lon"]) for s in g) + "</Folder>"
            for (st2, kd), g in groups.items() if st2 == st) + "</Folder>" for st in sorted({a for a, _ in groups}))
        if zones:
            body += "<Folder><name>exclusion zones</name>" + "".join(area_kml([wd.ll(*q) for q in z]) for z in zones) + "</Folder>"
        sites = kml(os.path.join(d, "sites.kml"), body)
    base_path, blinks = None, []
    if based:
        bs = [s for s in cand if s["src"] == "base"]
        body = ""
        for st in sorted({s["status"] for s in bs}):
            body += f"<Folder><name>{st}</name>"
            for kd in sorted({s["kind"] for s in bs if s["status"] == st}):
                body += f"<Folder><name>{kd} sites</name>" + "".join(
                    point(s, pos[s["pos"] - 1]["lat"], pos[s["pos"] - 1]["lon"]) for s in bs if (s["status"], s["kind"]) == (st, kd)) + "</Folder>"
            body += "</Folder>"
        for a in bs:
            for b in bs:
                if a is not b and a["kind"] != "CN" and rng.random() < 0.6 and not {a["kind"], b["kind"]} == {"POP"}:
                    blinks.append((a, b))
        if blinks:
            body += "<Folder><name>UNAVAILABLE</name><Folder><name>wireless links</name>" + "".join(
                f'<Placemark><ExtendedData><Data name="tx_site_name"><value>{a["name"]}</value></Data><Data name="rx_site_name"><value>{b["name"]}</value></Data></ExtendedData>'
                f'<LineString><coordinates>{pos[a["pos"] - 1]["lon"]!r},{pos[a["pos"] - 1]["lat"]!r},0 {pos[b["pos"] - 1]["lon"]!r},{pos[b["pos"] - 1]["lat"]!r},0</coordinates></LineString></Placemark>'
                for a, b in blinks) + "</Folder></Folder>"
        base_path = kml(os.path.join(d, "base.kml"), body)
    low = np.full_like(wd.top, wd.ground)
    paths = {n: tif(wd, os.path.join(d, n + ".tif"), {"dsm": wd.top, "dtm": low, "dhm": wd.top - low}[n]) for n in layers}
    area = [wd.ll(*q) for q in ring]
    if fault == "bow_tie":
        area = [area[0], area[2], area[1], area[3]]
    body = area_kml(area) * {"two_areas": 2, "no_area": 0}.get(fault, 1)
    bpath = kml(os.path.join(d, "b.kml"), f"<Folder><name>a</name>{body}</Folder>")
    g = GISDataParams(
        boundary_polygon_file_path=bpath, dsm_file_paths=[paths["dsm"]] if "dsm" in paths else None, dtm_file_path=paths.get("dtm"),
        dhm_file_path=paths.get("dhm"), site_file_path=sites, base_topology_file_path=base_path,
        building_outline_file_path=shp(d, wd, rings) if detect and rings else None,
    )
    detect = g.building_outline_file_path is not None
    p = LOSParams(
        device_list=devs, maximum_los_distance=rng.choice([60, 90, 120, 300, None]), minimum_los_distance=rng.choice([5, 10, 20]),
        maximum_elevation_scan_angle=rng.choice([25.0, 25.0, 40.0, 10.0]), carrier_frequency=rng.choice([60000.0, 60000.0, 30000.0]),
        minimum_mcs_of_backhaul_links=rng.choice([None, None, 7, 9]), minimum_mcs_of_access_links=rng.choice([None, None, 7, 9]),
        maximum_eirp=rng.choice([None, None, 20.0, 40.0]),
        mounting_height_above_rooftop=rng.choice([1.5, 2.5, 4.0]), default_dn_height_on_pole=rng.choice([5.0, 8.0]),
        default_cn_height_on_pole=4.5, default_pop_height_on_pole=rng.choice([6.0, 11.0]),
        use_ellipsoidal_los_model=rng.random() < 0.4, fresnel_radius=rng.choice([0.5, 1.0, 2.2]), los_confidence_threshold=rng.choice([1.0, 0.6, 0.3]),
        site_detection=SiteDetectionParams(dn_deployment=dnd, detect_highest=False, detect_centers=centers, detect_corners=corners),
        num_processors=1,
    )
    return wd, g, p, pos, cand, ring, rings, zones, blinks, dict(surfed=surfed, terred=terred, detect=detect, fault=fault)


def name_of(s):
    return s.name or ""


def case(rng, k):
    d = tempfile.mkdtemp()
    multiprocessing.current_process()._config["daemon"] = False  # the generation uses processes of its own
    old = current_system_params.output_dir
    current_system_params.output_dir = d
    try:
        wd, g, p, pos, cand, ring, rings, zones, blinks, f = make(rng, k, d)
        st, t = attempt(generate_candidate_topology, p, g, seconds=60)
        if f["fault"] != "none" and not (f["fault"] in ("no_cn", "no_dn") and not f["detect"]):
            return {"kind": "refuse", "fault": f["fault"], "res": st}
        if st != "ok":
            if not any(v.device_type.name == "DN" for v in p.device_list):
                return None
            return {"kind": "crash", "text": f"{st}: {t}"[:600], "cand": cand}
        back = attempt(extract_topology_from_file, os.path.join(d, "output", "candidate_topology.kml"), p.device_list, None, seconds=30)
        return record(wd, g, p, pos, cand, ring, rings, zones, f, t, back)
    finally:
        current_system_params.output_dir = old
        shutil.rmtree(d, ignore_errors=True)


def record(wd, g, p, pos, cand, ring, rings, zones, f, t, back):
    def where(s):
        best = min(range(len(pos)), key=lambda q: abs(pos[q]["lat"] - s.latitude) + abs(pos[q]["lon"] - s.longitude))
        q = pos[best]
        return best + 1 if abs(q["lat"] - s.latitude) + abs(q["lon"] - s.longitude) < 1e-6 else 0

    bld = {s["pos"]: s["bld"] for s in cand}
    ids = list(t.sites)
    idx = {i: n + 1 for n, i in enumerate(ids)}
    got = []
    for i in ids:
        s = t.sites[i]
        q = where(s)
        if q == 0:
            pos.append({"lat": s.latitude, "lon": s.longitude, "x": s.utm_x, "y": s.utm_y, "h": wd.ground, "base": wd.ground})
            q = len(pos)
        got.append({"kind": s.site_type.name, "sku": s.device.device_sku, "pos": q, "status": s.status_type.name, "bld": bld.get(q, -1),
                    "id": -1 if s.building_id is None else s.building_id, "type": s.location_type.name, "roof": s.location_type.name == "ROOFTOP",
                    "alt": s.altitude, "name": name_of(s)})
    based = [s for s in cand if s["src"] == "base"]
    find = {}
    for i in ids:
        s = t.sites[i]
        if s.name and s.name.startswith("base"):
            find[s.name] = s
    base, kept = [], all(b["name"] in find and find[b["name"]].status_type.name == b["status"] for b in based)
    for l in t.links.values():
        if l.tx_site.name.startswith("base") and l.rx_site.name.startswith("base"):
            base.append([idx[l.tx_site.site_id], idx[l.rx_site.site_id]])
            kept &= l.status_type.name == "UNAVAILABLE"
    ranges = get_max_los_dist_for_device_pairs(p.device_list, p.maximum_eirp, p.minimum_mcs_of_backhaul_links, p.minimum_mcs_of_access_links, p.maximum_los_distance)
    table = {}
    for (a, b), v in ranges.items():
        table.setdefault(a, {})[b] = float(v)
    surf = []
    if f["surfed"]:
        # sight lines start 4 m over ground and rise at most 42 degrees: what is lower cannot reach their zones
        floor = wd.ground + 4.0 - 1.4 * max(p.fresnel_radius, 1.0)
        col = [[x, y, float(wd.top[y, x])] for y in range(wd.ny) for x in range(wd.nx) if wd.top[y, x] > floor]
        surf = [{"x0": wd.x0 - wd.pad, "y0": wd.y0 + wd.h + wd.pad, "dx": wd.r, "dy": wd.r, "col": [[a, b, c] for a, b, c in col]}]
    want = sorted((s.site_type.name, round(s.latitude, 7), round(s.longitude, 7), s.device.device_sku) for s in t.sites.values())
    written = back[0] == "ok"
    if written:
        b = back[1]
        written = want == sorted((s.site_type.name, round(s.latitude, 7), round(s.longitude, 7), s.device.device_sku) for s in b.sites.values())
        written &= len(b.links) == len(t.links)
    at = lambda q: {"x": wd.x0 + q[0], "y": wd.y0 + q[1]}  # noqa: E731
    deg = lambda q: dict(zip(("y", "x"), wd.ll(*q)))  # noqa: E731
    return {
        "kind": "world", "pos": pos, "cand": cand, "rings": [[at(q) for q in r] for r in rings], "bound": [deg(q) for q in ring],
        "zones": [[deg(q) for q in z] for z in zones], "zutm": [[at(q) for q in z] for z in zones],
        "surfed": f["surfed"], "terred": f["terred"], "surf": surf,
        "roof": p.mounting_height_above_rooftop, "pole_pop": p.default_pop_height_on_pole, "pole_dn": p.default_dn_height_on_pole,
        "pole_cn": p.default_cn_height_on_pole, "detect": f["detect"], "corners": p.site_detection.detect_corners,
        "centers": p.site_detection.detect_centers, "dnd": p.site_detection.dn_deployment,
        "dns": [v.device_sku for v in p.device_list if v.device_type.name == "DN"], "cns": [v.device_sku for v in p.device_list if v.device_type.name == "CN"],
        "range": table, "max": max(float(v) for v in ranges.values()), "min": float(p.minimum_los_distance), "el": float(p.maximum_elevation_scan_angle),
        "thr": float(p.los_confidence_threshold), "ell": p.use_ellipsoidal_los_model, "radius": float(p.fresnel_radius), "freq": float(p.carrier_frequency),
        "got": got, "base": base, "kept": kept, "written": written,
        "link": [
            {"tx": idx[l.tx_site.site_id], "rx": idx[l.rx_site.site_id], "status": l.status_type.name, "wireless": l.is_wireless,
             "conf": -1.0 if l.confidence_level is None else float(l.confidence_level)}
            for l in t.links.values()
        ],
    }


def run(ctx):
    cases = [c for c in ctx.pmap(case, range(ctx.pick(240, 2500))) if c]
    worlds = [c for c in cases if c["kind"] == "world"]
    for c in worlds:
        ctx.nontrivial({k: v for k, v in c.items() if k not in ("got", "link")})
    ctx.notes["worlds"] = {"made": len(worlds), "detecting": sum(c["detect"] for c in worlds), "with_surface": sum(c["surfed"] for c in worlds),
                           "sites": sum(len(c["got"]) for c in worlds), "links": sum(len(c["link"]) for c in worlds)}
    ctx.judge("Generate", cases, [f"{c['kind']}#{k}" for k, c in enumerate(cases)], op="GenerateFails")
