"""F02: link tables of a candidate network in CSV and KML/KMZ (spec/LinkInput.tla)."""
import os
import tempfile
import zipfile

from harness import world as w
from harness.core import attempt
from harness.drivers.f01 import esc, write_doc
from terragraph_planner.common import exceptions
from terragraph_planner.common.data_io.utils import extract_topology_from_file

LEVEL = "model_checking"
RULE = "a distinct network table with at least one wireless link, read or refused"
ASSUMPTIONS = [
    "no row links a site to itself; no two sites share a name",
    "an end of a line is not within half a metre of the 10 m limit, nor as near to two places",
]
PLANNER = {k for k, v in vars(exceptions).items() if isinstance(v, type) and issubclass(v, Exception) and v.__module__ == exceptions.__name__}
PLACES = [(0, 0), (120, 0), (4, 3), (0, 140), (260, 40), (123, 2), (-150, 90), (130, 0)]


def legal(a, b, x):
    if x == "EXISTING" and not (a == b == "EXISTING"):
        return False
    if "UNAVAILABLE" in (a, b):
        return x == "UNAVAILABLE"
    if "UNREACHABLE" in (a, b):
        return x in ("UNREACHABLE", "UNAVAILABLE")
    return not ("CANDIDATE" in (a, b) and x in ("PROPOSED", "EXISTING"))


def sites_of(rng, csv):
    n = rng.randint(2, 7)
    out, used = [], set()
    names = ["a", "b", "A", "p&q", "007", "x y", "né", "<c>", "NA"]
    rng.shuffle(names)
    spots = [rng.randrange(len(PLACES)) for _ in range(n)]
    for k in range(n):
        kind = rng.choice(["POP", "DN", "DN", "CN"])
        sku = "cn_0" if kind == "CN" else rng.choice(["dn_0", "dn_1"])
        if (spots[k], kind, sku) in used:
            continue
        used.add((spots[k], kind, sku))
        st = "CANDIDATE" if csv else rng.choice(["CANDIDATE", "CANDIDATE", "PROPOSED", "EXISTING", "EXISTING", "UNAVAILABLE", "UNREACHABLE"])
        out.append({"name": names[k], "kind": kind, "status": st, "spot": spots[k], "sku": sku})
    return out


def ll(xy, lat0, lon0):
    g = w.at(xy[0], xy[1], None, lat0, lon0)
    return g.latitude, g.longitude


def dist(xy, s):
    a, b = PLACES[s["spot"]]
    return ((xy[0] - a) ** 2 + (xy[1] - b) ** 2) ** 0.5


def endpoint(rng, sites, s):
    """A point near (or a bit too far from) a site, with a clear answer."""
    for _ in range(50):
        r = rng.choice([0, 0, 1.5, 6, 9, 11.5, 30]) if rng.random() < 0.4 else rng.choice([0, 0, 1, 2])
        import math
        t = rng.uniform(0, 6.283)
        a, b = PLACES[s["spot"]]
        xy = (a + r * math.cos(t), b + r * math.sin(t))
        ds = sorted({round(dist(xy, q), 3) for q in sites})
        if all(not 9.5 < d < 10.6 for d in ds) and (len(ds) == 1 or ds[1] - ds[0] > 0.4):
            return xy
    return PLACES[s["spot"]]


def row_status(rng, a, b):
    ok = [x for x in w.STATUS if legal(a, b, x)]
    return rng.choice(ok) if rng.random() < 0.985 else rng.choice(w.STATUS)


def num(rng):
    v = rng.choice([0, 500, 870, 1000, 333, 70])
    t = repr(v / 1000)
    return [v], t[:-2] if t.endswith(".0") and rng.random() < 0.5 else t


CONF = ["confidence level", "Confidence Level", "confidence_level", "CONFIDENCE_LEVEL"]
TX = ["tx_site", "TX_SITE_NAME", "Tx_Site_Id", "from_site", "FROM_SITE_NAME", "from_site_id"]
RX = ["rx_site", "RX_SITE_NAME", "Rx_Site_Id", "to_site", "TO_SITE_NAME", "to_site_id"]
LT = ["link type", "Link_Type", "LINK_TYPE"]


def kml(rng, path, sites, rows, demands, lat0, lon0):
    low = lambda s: rng.choice([s, s.lower(), s.title()])  # noqa: E731
    groups = {}
    for s in sites:
        la, lo = ll(PLACES[s["spot"]], lat0, lon0)
        pm = (f"<Placemark><name>{esc(s['name'])}</name><ExtendedData><Data name=\"device_sku\"><value>{s['sku']}</value></Data></ExtendedData>"
              f"<Point><coordinates>{lo!r},{la!r}</coordinates></Point></Placemark>")
        groups.setdefault(s["status"], {}).setdefault(low(s["kind"]) + rng.choice([" sites", ""]), []).append(pm)
    order = []
    for r in rows:
        data = []
        if r["by"] == "name":
            data += [(rng.choice(TX), esc(r["a"])), (rng.choice(RX), esc(r["b"]))]
        elif rng.random() < 0.2:  # one name is not enough
            data.append((rng.choice(TX), esc(r["half"])))
        if r["conf"]:
            data.append((rng.choice(CONF), r["ctext"]))
        if r["field"]:
            data.append((rng.choice(LT), low(r["type"])))
        rng.shuffle(data)
        ext = "".join(f'<Data name="{k}"><value>{v}</value></Data>' for k, v in data)
        pts = [r["pa"]] + [((r["pa"][0] + r["pb"][0]) / 2, 555.0)] * (rng.random() < 0.2) + [r["pb"]]
        co = " ".join(f"{lo!r},{la!r},{z}" for (la, lo), z in ((ll(p, lat0, lon0), rng.choice([0, 12])) for p in pts))
        pm = ((f"<Placemark><ExtendedData>{ext}</ExtendedData>" if ext else "<Placemark>") + f"<LineString><coordinates>{co}</coordinates></LineString></Placemark>")
        order.append((r, pm))
    body, first = "", True
    flat = rng.random() < 0.5
    stats = sorted(set(groups) | {r["status"] for r in rows}, key=lambda s: s != "CANDIDATE")
    seq = []
    for st in stats:
        inner = "".join(f"<Folder><name>{h}</name>{''.join(p)}</Folder>" for h, p in groups.get(st, {}).items())
        runs = []  # consecutive rows of one type share a folder
        for r, pm in order:
            if r["status"] == st:
                seq.append(r)
                if runs and runs[-1][0] == r["folder"]:
                    runs[-1][1].append(pm)
                else:
                    runs.append((r["folder"], [pm]))
        links = "".join(f"<Folder><name>{low(h)}{rng.choice(['', '_links', ' links'])}</name>{''.join(p)}</Folder>" for h, p in runs)
        both = inner + links if rng.random() < 0.7 else links + inner
        if flat and st == "CANDIDATE" and first:
            body += both
        else:
            body += f"<Folder><name>{low(st)}</name>{both}</Folder>"
        first = False
    if demands:
        pts = "".join("<Placemark><Point><coordinates>{1!r},{0!r},{2}</coordinates></Point></Placemark>".format(*ll(p, lat0, lon0), rng.choice([0, 33]))
                      for p in demands)
        body += f"<Folder><name>{low('Demand')}</name><Folder><name>{low('Demand Sites')}</name>{pts}</Folder></Folder>"
    write_doc(rng, path, '<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><name>plan</name>' + body + "</Document></kml>")
    return seq


def csv(rng, path, sites, rows, lat0, lon0, bad, style):
    q = lambda s: '"' + s.replace('"', '""') + '"' if any(c in s for c in ',"') or rng.random() < 0.1 else s  # noqa: E731
    head = "latitude,longitude,name,type,sku\n"
    body = "".join("{!r},{!r},{},{},{}\n".format(*ll(PLACES[s["spot"]], lat0, lon0), q(s["name"]), s["kind"], s["sku"]) for s in sites)
    pad = lambda s: rng.choice(["", "", " "]) + s + rng.choice(["", "", " "])  # noqa: E731
    if style == "pair":
        cols = [rng.choice(["site_pair", "Sites", "SITE_PAIR"])]
        lines = [[r["a"] + rng.choice(["-->", " --> "]) + r["b"]] for r in rows]
        if bad == "row":
            lines[-1][0] = rng.choice(["a", "a-b", "a-->b-->a"])
    else:
        a, b = (["site1", "Site1_ID", "site1_name"], ["site2", "Site2_ID", "site2_name"]) if style == "both" else (TX, RX)
        cols = [rng.choice(a), rng.choice(b)]
        lines = [[pad(r["a"]), pad(r["b"])] for r in rows]
        if bad == "row":
            cols[rng.randrange(2)] = "other"
        elif rng.random() < 0.4:
            cols.reverse()
            lines = [ln[::-1] for ln in lines]
    text = ",".join(cols) + "\n" + "".join(",".join(map(q, ln)) + "\n" for ln in lines)
    with zipfile.ZipFile(path, "w") as z:
        if bad != "sites":
            z.writestr("sites.csv", head + body)
        z.writestr("link.csv" if bad == "links" else "links.csv", text)


def spoil(rng, path):
    """What a reader may find in place of a network."""
    how = rng.choice(["gone", "empty", "noise", "cut", "page", "archive", "kind"])
    with open(path, "rb") as f:
        b = f.read()
    if how == "gone":
        os.remove(path)
    elif how == "archive":
        with zipfile.ZipFile(path, "w") as z:
            z.writestr("readme.txt", "nothing here")
    elif how == "kind":  # a network of another kind under this name
        if path.lower().endswith(".kml"):
            with zipfile.ZipFile(path, "w") as z:
                z.writestr("doc.kml", b)
        else:
            with open(path, "w") as f:
                f.write("tx_site_name,rx_site_name\na,b\n")
    else:
        with open(path, "wb") as f:
            f.write({"empty": b"", "noise": bytes(rng.randrange(256) for _ in range(200)), "cut": b[: max(10, len(b) // 2)], "page": b"<html><body>not found</body></html>"}[how])
    return how


def project(t, spots, sites):
    links = []
    for x in t.links.values():
        c = x.confidence_level
        v = [] if c is None else [round(c * 1000)]
        links.append({"tx": x.tx_site.name, "rx": x.rx_site.name, "status": x.status_type.name, "type": x.link_type.name, "conf": v})
    links.sort(key=lambda d: (d["tx"], d["rx"]))
    dem = []
    for d in t.demand_sites.values():
        dem.append(next((k for k, (la, lo) in enumerate(spots) if abs(la - d.latitude) < 1e-9 and abs(lo - d.longitude) < 1e-9), -1))
    return {"ok": True, "how": "ok", "links": links, "demands": sorted(dem), "sites": len(t.sites)}


def one(rng, _k):
    lat0, lon0 = rng.choice([(37.48, -122.15), (-33.86, 151.2), (0.3, 0.2), (-12.05, -77.04)])
    kind = rng.choice(["csv", "kml", "kml", "kmz"])
    for _ in range(50):
        sites = sites_of(rng, kind == "csv")
        if len({s["spot"] for s in sites}) > 1:
            break
    else:
        raise ValueError("no network")
    rows, demands, bad, style = [], [], "none", "none"
    have = rng.random() < 0.7
    for _ in range(rng.randint(1, 6)):
        a, b = rng.sample(sites, 2)
        if a["kind"] == "CN" and rng.random() < 0.5:
            a, b = b, a
        r = {"by": "name", "a": a["name"], "b": b["name"], "status": "CANDIDATE", "type": "WIRELESS_BACKHAUL", "conf": [], "near": []}
        if rng.random() < 0.02:
            r[rng.choice(["a", "b"])] = "nobody"
        if kind != "csv":
            r["type"] = rng.choice(["WIRELESS_BACKHAUL", "WIRELESS_ACCESS", "ETHERNET"]) if rng.random() < 0.5 else "WIRELESS_BACKHAUL"
            r["folder"] = rng.choice(["WIRELESS_BACKHAUL", "WIRELESS_ACCESS", "ETHERNET", r["type"], r["type"]])
            r["field"] = r["folder"] != r["type"] or rng.random() < 0.5
            if rng.random() < 0.3 and sites.index(a) != sites.index(b):
                a, b = rng.sample(sites, 2)
                r.update(a=a["name"], b=b["name"])
            r["status"] = row_status(rng, a["status"], b["status"])
            if have and rng.random() < 0.7:
                r["conf"], r["ctext"] = num(rng)
            far = abs(PLACES[a["spot"]][0] - PLACES[b["spot"]][0]) + abs(PLACES[a["spot"]][1] - PLACES[b["spot"]][1]) > 30
            r["pa"], r["pb"] = PLACES[a["spot"]], PLACES[b["spot"]]
            if far and rng.random() < 0.5:
                r.update(by="place", half=a["name"], a="", b="", pa=endpoint(rng, sites, a), pb=endpoint(rng, sites, b))
                r["near"] = [{"d": [int(dist(p, s) * 10 + 0.5) if dist(p, s) > 1e-6 else 0 for s in sites]} for p in (r["pa"], r["pb"])]
        rows.append(r)
        if rng.random() < 0.06:
            q = dict(r)
            if rng.random() < 0.5:
                q["a"], q["b"] = q["b"], q["a"]
                if "pa" in q:
                    q["pa"], q["pb"] = q["pb"], q["pa"]
                    q["near"] = q["near"][::-1]
                    q["half"] = ""
                    if q["by"] == "place":
                        q["half"] = b["name"]
            rows.append(q)
    spots = [ll(p, lat0, lon0) for p in PLACES]
    with tempfile.TemporaryDirectory() as d:
        ext = {"csv": "zip"}.get(kind, kind)
        path = os.path.join(d, "net." + (ext if rng.random() < 0.85 else rng.choice([ext.upper(), ext.title()])))
        if kind == "csv":
            style = rng.choice(["pair", "both", "txrx"])
            if rng.random() < 0.1:
                bad = rng.choice(["row", "sites", "links"])
            csv(rng, path, sites, rows, lat0, lon0, bad, style)
        else:
            demands = sorted(rng.sample(range(len(PLACES)), rng.choice([0, 0, 1, 3])))
            rows = kml(rng, path, sites, rows, [PLACES[k] for k in demands], lat0, lon0)
        if rng.random() < 0.05:
            bad = spoil(rng, path)
        devs = [w.device("dn_0"), w.device("DN_1"), w.device("cn_0", "CN")]
        r, v = attempt(lambda: project(extract_topology_from_file(path, devs, None), spots, sites))
    keep = ("by", "a", "b", "status", "type", "conf", "near")
    return {
        "kind": kind, "sites": [{k: s[k] for k in ("name", "kind", "status")} for s in sites],
        "rows": [{k: x[k] for k in keep} for x in rows], "bad": bad != "none", "defect": bad,
        "once": {"none": "no", "both": "pair"}.get(style, "directed"), "demands": demands,
        "out": v if r == "ok" else {"ok": False, "how": r if r not in PLANNER else "told", "links": [], "demands": [], "sites": 0},
    }


def run(ctx):
    cases = ctx.pmap(one, range(ctx.pick(1600, 16000)))
    keys = [f"{c['kind']}#{k}" for k, c in enumerate(cases)]
    kinds = {}
    for c in cases:
        k = f"{c['kind']}/{'accepted' if c['out']['ok'] else 'refused'}"
        kinds[k] = kinds.get(k, 0) + 1
        if any(r["type"] != "ETHERNET" for r in c["rows"]):
            ctx.nontrivial({k: v for k, v in c.items() if k != "out"})
    ctx.notes["networks"] = kinds
    ctx.judge("LinkInput", cases, keys, op="InputFails")
