"""F01: site tables in CSV and KML/KMZ (spec/SiteInput.tla)."""
import os
import tempfile
import zipfile

from shapely.geometry import Polygon

from harness import world as w
from harness.core import attempt
from terragraph_planner.common.configuration.enums import LocationType
from terragraph_planner.common import exceptions
from terragraph_planner.common.data_io.csv_library import load_input_sites_from_csv_file
from terragraph_planner.common.data_io.input_sites_loader import InputSitesLoader
from terragraph_planner.common.geos import GeoLocation

LEVEL = "model_checking"
RULE = "a distinct table, device list and format, accepted with at least two sites or refused"
ASSUMPTIONS = [
    "a table does not write one position in two notations",
    "folders without a status come before folders with one (see the finding on folder statuses)",
]
NAMES = {
    "pos": None,
    "lat": ["base_lat", "latitude", "lat", "LAT", " Latitude "],
    "lon": ["base_lon", "longitude", "lon", "Lon"],
    "alt": ["altitude", "alt", "ALT"],
    "height": ["height", "install_height", "site_height", "height_m", "height(m)", "Height (m)"],
    "name": ["name", "site_name", "Site Name", "pole_name"],
    "type": ["type", "site_type", "Site Type"],
    "sku": ["sku", "device_sku", "Device SKU"],
    "subs": ["number_of_demand_points", "number of subscribers", "demand sites", "num_demand_points",
             "number_of_subscribers", "num_demand_sites", "demand_points", "Demand Points", "demand_sites"],
    "ltype": ["location type", "Location_Type"],
    "bld": ["building id", "building_id"],
}


def place(k, lat0, lon0):
    return round(lat0 + 0.0013 * (k % 5) + 0.00021 * k, 6), round(lon0 - 0.0017 * (k % 3) + 0.00031 * k, 6)


def dms(v, pos, neg):
    d = neg if v < 0 else pos
    v = abs(v)
    m, s = divmod(v * 3600, 60)
    g, m = divmod(m, 60)
    return f"{int(g)}°{int(m)}'{s:.7f}\"{d}"


def num(rng, tenths):
    v = tenths / 10
    return str(int(v)) if v == int(v) and rng.random() < 0.5 else repr(v)


def table(rng):
    ndn, ncn = rng.randint(1, 3), rng.randint(1, 2)
    devices = [{"sku": f"dn_{k}", "type": "DN"} for k in range(ndn)] + [{"sku": f"cn_{k}", "type": "CN"} for k in range(ncn)]
    rng.shuffle(devices)
    named = rng.choice([0.0, 0.7, 1.0])
    rows = []
    n = rng.choice([0, 1, 2, 3, 4, 5, 6])
    have = {f: rng.random() < 0.6 for f in ("alt", "height", "sku", "subs", "ltype", "bld")}
    names = ["a", "b", "NA", "007", "7", "null", "1.10", "1.1", "A", "x y", "p&q", "a_dn_0", "a_cn_0", "DN"]
    for _ in range(n):
        t = rng.choice(["POP", "DN", "DN", "CN"])
        r = {
            "type": t,
            "pos": rng.randint(0, 6),
            "alt": [rng.randint(-50, 3000)] if have["alt"] and rng.random() < 0.7 else [],
            "height": [rng.randint(0, 300)] if have["height"] and rng.random() < 0.7 else [],
            "sku": "",
            "name": rng.choice(names) if rng.random() < named else "",
            "subs": rng.randint(0, 12) if have["subs"] and rng.random() < 0.7 else -1,
            "ltype": rng.choice(["STREET_LEVEL", "ROOFTOP", "UNKNOWN", ""]) if have["ltype"] else "",
            "bld": -1,
            "status": "CANDIDATE",
            "inside": True,
        }
        if have["bld"] and r["ltype"] == "ROOFTOP" and rng.random() < 0.6:
            r["bld"] = rng.randint(0, 40)
        if have["sku"] and rng.random() < 0.7:
            ok = [d["sku"] for d in devices if d["type"] == ("CN" if t == "CN" else "DN")]
            r["sku"] = rng.choice(ok)
            if rng.random() < 0.03:
                r["sku"] = rng.choice(["dn_9", rng.choice(devices)["sku"]])
        rows.append(r)
        if rng.random() < 0.1:
            rows.append(dict(r))
        elif rng.random() < 0.25:  # almost the same site
            q = dict(r)
            f = rng.choice(["pos", "alt", "sku", "name", "type"])
            if f == "pos":
                q["pos"] = (r["pos"] + 1) % 7
            elif f == "alt" and have["alt"]:
                q["alt"] = [r["alt"][0] + 1] if r["alt"] else [100]
            elif f == "sku" and have["sku"]:
                q["sku"] = rng.choice([d["sku"] for d in devices if d["type"] == ("CN" if t == "CN" else "DN")])
            elif f == "name" and named:
                q["name"] = rng.choice(names)
            elif f == "type" and t != "CN":
                q["type"] = "DN" if t == "POP" else "POP"
            rows.append(q)
    # one place and device under two names is left to the network's own rules
    ok, seen = [], {}
    for r in rows:
        k = (r["type"], r["pos"], tuple(r["alt"]), tuple(r["height"]))
        v = (r["name"], r["ltype"], r["subs"], r["bld"])
        if seen.setdefault(k, v) == v:
            ok.append(r)
    # a base name that is itself a told-apart name of another pair of rows: order decides; one of each only
    told = [r for r in ok if r["name"] in ("a_dn_0", "a_cn_0")]
    if len(told) > 1 or any(not r["sku"] for r in told):
        ok = [r for r in ok if r["name"] not in ("a_dn_0", "a_cn_0")]
    return devices, ok


def infer_of(rng):
    return {k: rng.choice(["STREET_LEVEL", "ROOFTOP"]) for k in ("POP", "DN", "CN")}


def infer_fn(rec):
    def f(latitude, longitude, altitude, height, location_type, site_type):
        if location_type == LocationType.UNKNOWN:
            location_type = LocationType[rec[site_type.name]]
        if altitude is None:
            altitude = 100.0 + (height if height is not None else 5.0)
        return GeoLocation(latitude=latitude, longitude=longitude, altitude=altitude), location_type

    return f


def write_csv(rng, path, rows, lat0, lon0, topo, bad):
    q = lambda s: '"' + s.replace('"', '""') + '"' if any(c in s for c in ',"') else s  # noqa: E731
    style = rng.choice(["dec", "dec", "dms", "dir", "mixed"])
    cols = ["lat", "lon"]
    if topo or any(r["name"] for r in rows) or rng.random() < 0.3:
        cols.append("name")
    default_type = not topo and all(r["type"] == "POP" for r in rows) and rng.random() < 0.7
    if not default_type:
        cols.append("type")
    for f in ("alt", "height", "sku", "ltype", "subs", "bld"):
        if any(r[f] not in ([], "", -1) for r in rows) or rng.random() < 0.2:
            cols.append(f)
    rng.shuffle(cols)
    heads = [rng.choice(NAMES[f]) for f in cols]
    lines = []
    for r in rows:
        la, lo = place(r["pos"], lat0, lon0)
        s = style if style != "mixed" else ["dec", "dms", "dir"][r["pos"] % 3]
        if s == "dms":
            la, lo = dms(la, "N", "S"), dms(lo, "E", "W")
        elif s == "dir":
            la, lo = f"{abs(la)}° {'N' if la >= 0 else 'S'}", f"{abs(lo)} {'E' if lo >= 0 else 'W'}"
        cell = {
            "lat": str(la), "lon": str(lo), "name": r["name"],
            "type": rng.choice([r["type"], r["type"].lower(), r["type"] + " site"]),
            "alt": num(rng, r["alt"][0]) if r["alt"] else "", "height": num(rng, r["height"][0]) if r["height"] else "",
            "sku": rng.choice([r["sku"], r["sku"].upper()]),
            "ltype": rng.choice([r["ltype"], r["ltype"].lower()]),
            "subs": str(r["subs"]) if r["subs"] >= 0 else "", "bld": str(r["bld"]) if r["bld"] >= 0 else "",
        }
        lines.append([rng.choice(["", "", " "]) + cell[f] if f not in ("lat", "lon") else cell[f] for f in cols])
    if rng.random() < 0.3:
        k = rng.randint(0, len(heads))
        heads.insert(k, "remark")
        for ln in lines:
            ln.insert(k, rng.choice(["", "zz", "4"]))
    if bad == "column":
        f = rng.choice(["lat", "lon"])
        k = [h.strip().lower() in [x.strip().lower() for x in NAMES[f]] for h in heads].index(True)
        heads[k] = "other"
    elif bad == "twice":
        f = rng.choice(cols)
        k = cols.index(f)
        alt = [x for x in NAMES[f] if x.strip().lower() not in [h.strip().lower() for h in heads]]
        heads.append(alt[0])
        for ln in lines:
            ln.append(ln[k])
    elif bad == "type" and "type" in cols:
        lines[0][[h.strip().lower() in ("type", "site_type", "site type") for h in heads].index(True)] = "XN"
    elif bad == "number":
        low = [h.strip().lower() for h in heads]
        k = next((i for i, h in enumerate(low) if h in ("alt", "altitude") or h.startswith("height") or h in ("install_height", "site_height")),
                 next(i for i, h in enumerate(low) if h in ("lat", "latitude", "base_lat")))
        lines[-1][k] = rng.choice(["ten", "1o", "12..5"])
    elif bad == "blank":
        low = [h.strip().lower() for h in heads]
        lines[rng.randrange(len(lines))][next(i for i, h in enumerate(low) if h in ("lat", "latitude", "base_lat"))] = ""
    elif bad == "noname":
        f = rng.choice(["name", "type"])
        k = [h.strip().lower() in [x.strip().lower() for x in NAMES[f]] for h in heads].index(True)
        heads[k] = "other"
    with open(path, "w", encoding=rng.choice(["utf-8", "utf-8-sig"])) as f:
        f.write(",".join(heads) + "\n" + "".join(",".join(map(q, ln)) + "\n" for ln in lines))


CANON = {"sku": "device_sku", "device sku": "device_sku", "site name": "site_name", "pole name": "site_name",
         "location type": "location_type", "building id": "building_id"}


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def placemark(rng, r, lat0, lon0, schema):
    la, lo = place(r["pos"], lat0, lon0)
    data = []
    if r["sku"]:
        data.append((rng.choice(["sku", "device_sku", "Device SKU"]), rng.choice([r["sku"], r["sku"].upper()])))
    if r["subs"] >= 0:
        data.append(("number_of_subscribers" if schema else rng.choice(NAMES["subs"]), str(r["subs"])))
    if r["ltype"]:
        data.append((rng.choice(NAMES["ltype"]), rng.choice([r["ltype"], r["ltype"].lower()])))
    if r["bld"] >= 0:
        data.append((rng.choice(NAMES["bld"]), str(r["bld"])))
    name = ""
    if r["name"]:
        if rng.random() < 0.7:
            name = f"<name>{esc(r['name'])}</name>"
        else:
            data.append((rng.choice(["site_name", "Site Name", "pole_name"]), esc(r["name"])))
    if rng.random() < 0.3:
        data.append(("remark", "zz"))
    rng.shuffle(data)
    if schema:  # one notation per placemark
        data = [(CANON.get(k.strip().lower().replace("_", " "), k), v) for k, v in data]
        ext = "".join(f'<SimpleData name="{k}">{v}</SimpleData>' for k, v in data)
        ext = ext and f'<SchemaData schemaUrl="#s">{ext}</SchemaData>'
    else:
        ext = "".join(f'<Data name="{k}"><value>{v}</value></Data>' for k, v in data)
    if r["alt"]:
        mode, z = "absolute", r["alt"][0] / 10
    elif r["height"]:
        mode, z = "relativeToGround", r["height"][0] / 10
    else:
        mode, z = rng.choice([("clampToGround", rng.choice([None, 33.0])), (None, rng.choice([None, 0, 12.0]))])
    m = f"<altitudeMode>{mode}</altitudeMode>" if mode else ""
    return (f"<Placemark>{name}" + (f"<ExtendedData>{ext}</ExtendedData>" if ext else "") +
            f"<Point>{m}<coordinates>{lo},{la}{'' if z is None else ',' + str(z)}</coordinates></Point></Placemark>")


def write_kml(rng, path, rows, lat0, lon0):
    schema = rng.random() < 0.4
    groups = {}
    for r in rows:
        groups.setdefault((r["status"], r["type"]), []).append(r)
    low = lambda s: rng.choice([s, s.lower(), s.title()])  # noqa: E731
    body = ""
    keys = sorted(groups)
    rng.shuffle(keys)
    flat = [k for k in keys if k[0] == "CANDIDATE" and rng.random() < 0.5]

    def folder(k):
        head = low(k[1]) + rng.choice(["", " sites", "s"])
        return f"<Folder><name>{head}</name>" + "".join(placemark(rng, r, lat0, lon0, schema) for r in groups[k]) + "</Folder>"

    for k in flat:
        body += folder(k)
    for s in sorted({k[0] for k in keys if k not in flat}):
        inner = "".join(folder(k) for k in keys if k not in flat and k[0] == s)
        body += f"<Folder><name>{low(s)}{rng.choice(['', ' network'])}</name>{inner}</Folder>"
    sch = ""
    if schema:
        types = {"number_of_subscribers": rng.choice(["int", "double", "string"]), "building_id": rng.choice(["int", "string"])}
        sch = '<Schema name="s" id="s">' + "".join(
            f'<SimpleField name="{n}" type="{types.get(n, "string")}"/>' for n in
            ["device_sku", "site_name", "location_type", "building_id", "number_of_subscribers", "remark"]) + "</Schema>"
    doc = f'<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><name>plan</name>{sch}{body}</Document></kml>'
    write_doc(rng, path, doc)


def write_doc(rng, path, doc):
    if path.lower().endswith(".kmz"):
        with zipfile.ZipFile(path, "w") as z:
            z.writestr("files/readme.txt", "x")
            z.writestr("doc.kml", doc)
    else:
        with open(path, "w", encoding="utf-8") as f:
            f.write(doc)


def tenths(v):
    if v is None:
        return []
    if isinstance(v, bool) or not isinstance(v, (int, float)) and not hasattr(v, "dtype"):
        return [-99999]
    k = round(float(v) * 10)
    return [k] if abs(float(v) * 10 - k) < 1e-6 else [-99998]


def project(sites, lat0, lon0):
    where = {k: place(k, lat0, lon0) for k in range(7)}
    out = []
    for s in sites:
        try:
            pos = next((k for k, (a, b) in where.items() if abs(s.latitude - a) < 1e-8 and abs(s.longitude - b) < 1e-8), -9)
        except TypeError:
            pos = -8
        named = s.name != s.site_id
        n = s.number_of_subscribers
        out.append({
            "type": s.site_type.name, "pos": pos, "alt": tenths(s.altitude), "sku": s.device.device_sku.casefold(),
            "name": s.name if named else "", "named": named, "subs": int(n) if int(n) == n else -7, "ltype": s.location_type.name,
            "bld": -2 if s.building_id is None else s.building_id if isinstance(s.building_id, int) else -9,
            "status": s.status_type.name,
        })
    return out


PLANNER = {k for k, v in vars(exceptions).items() if isinstance(v, type) and issubclass(v, Exception) and v.__module__ == exceptions.__name__}


def run_case(devices, infer, load, lat0, lon0):
    devs = [w.device(d["sku"].upper() if k % 2 else d["sku"], d["type"]) for k, d in enumerate(devices)]

    def go():
        return project(load(InputSitesLoader(devs), infer_fn(infer) if infer else None), lat0, lon0)

    r, v = attempt(go)
    return {"ok": r == "ok", "how": "told" if r in PLANNER else r, "sites": v if r == "ok" else []}


def one(rng, _k):
    lat0, lon0 = rng.choice([(37.48, -122.15), (-33.86, 151.2), (0.3, 0.2), (-12.05, -77.04)])
    devices, rows = table(rng)
    infer = infer_of(rng) if rng.random() < 0.4 else None
    kind = rng.choice(["csv", "csv", "csvtopo", "kml", "kml", "kmz", "raw"])
    bad = "none"
    if kind == "csvtopo":
        infer = None
        for k, r in enumerate(rows):
            r["name"] = r["name"] or f"s{r['pos']}{r['type']}{r['alt']}{r['height']}".replace("[", "").replace("]", "")
    if kind in ("csv", "csvtopo") and rng.random() < 0.15 and rows:
        bad = rng.choice(["column", "twice", "type", "number", "blank"] + (["noname"] if kind == "csvtopo" else []))
        if bad == "type" and all(r["type"] == "POP" for r in rows):
            bad = "column"
    if kind in ("kml", "kmz"):
        for r in rows:
            if r["alt"]:
                r["height"] = []
            r["status"] = ["CANDIDATE", "CANDIDATE", "EXISTING", "PROPOSED", "UNAVAILABLE", "UNREACHABLE"][r["pos"] % 6]
    poly = None
    if rng.random() < 0.4 and kind not in ("csvtopo",):
        cut = rng.randint(-1, 7)
        ins = [place(k, lat0, lon0) for k in range(7)]
        lo = sorted(p[1] for p in ins)
        c = (lo[cut] + lo[cut - 1]) / 2 if 1 <= cut <= 6 else lo[0] - 0.001 if cut < 1 else lo[6] + 0.001
        poly = Polygon([(c, lat0 - 1), (c, lat0 + 1), (c + 1, lat0 + 1), (c + 1, lat0 - 1)])
        for r in rows:
            r["inside"] = place(r["pos"], lat0, lon0)[1] > c
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "sites." + {"csvtopo": "csv", "raw": "csv"}.get(kind, kind))
        if kind in ("csv", "csvtopo", "raw"):
            write_csv(rng, path, rows, lat0, lon0, kind == "csvtopo", bad)
        else:
            write_kml(rng, path, rows, lat0, lon0)

        def load(ld, fn):
            if kind == "csvtopo":
                return ld.get_input_sites(load_input_sites_from_csv_file(path, False), poly, fn)
            if kind == "raw":
                return ld.get_input_sites(load_input_sites_from_csv_file(path, True), poly, fn)
            return ld.read_user_input(path, poly, fn)

        out = run_case(devices, infer, load, lat0, lon0)
    if kind in ("kml", "kmz"):
        rows = [dict(r, ltype=r["ltype"] or "STREET_LEVEL") for r in rows]
    return {"kind": kind, "devices": devices, "rows": rows, "infer": [infer] if infer else [], "bad": bad != "none", "defect": bad, "out": out}


def leak(ctx):
    """A folder without a status after a folder with one."""
    pm = lambda n, la, lo: f"<Placemark><name>{n}</name><Point><coordinates>{lo},{la}</coordinates></Point></Placemark>"  # noqa: E731
    p = [place(k, 37.48, -122.15) for k in range(2)]
    body = (f"<Folder><name>EXISTING</name><Folder><name>DN</name>{pm('a', *p[0])}</Folder></Folder>"
            f"<Folder><name>POP</name>{pm('b', *p[1])}</Folder>")
    doc = f'<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><name>plan</name>{body}</Document></kml>'
    base = {"alt": [], "height": [], "sku": "", "subs": -1, "ltype": "STREET_LEVEL", "bld": -1, "inside": True}
    devices = [{"sku": "dn_0", "type": "DN"}]
    rows = [dict(base, type="DN", pos=0, name="a", status="EXISTING"), dict(base, type="POP", pos=1, name="b", status="CANDIDATE")]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "sites.kml")
        write_doc(None, path, doc)
        out = run_case(devices, None, lambda ld, fn: ld.read_user_input(path, None, fn), 37.48, -122.15)
    return {"kind": "kml", "devices": devices, "rows": rows, "infer": [], "bad": False, "defect": "none", "out": out}


def run(ctx):
    cases = ctx.pmap(one, range(ctx.pick(1600, 16000)))
    keys = [f"{c['kind']}#{k}" for k, c in enumerate(cases)]
    cases.append(leak(ctx))
    keys.append("kml:folder-without-status-after-one-with")
    kinds = {}
    for c in cases:
        k = (c["kind"], "accepted" if c["out"]["ok"] else "refused")
        kinds["/".join(k)] = kinds.get("/".join(k), 0) + 1
        if not c["out"]["ok"] or len(c["out"]["sites"]) > 1:
            ctx.nontrivial({k: v for k, v in c.items() if k != "out"})
    ctx.notes["tables"] = kinds
    ctx.judge("SiteInput", cases, keys)
