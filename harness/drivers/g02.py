"""G02: building outlines, drawn areas and sites on rooftops (spec/Rooftops.tla).

Outline files of every supported kind are written, read back through the real
loaders and compared ring by ring; outlines are cut to an area; sites are
detected on synthetic rooftops over a synthetic surface.
"""
import os
import shutil
import tempfile
import zipfile

from osgeo import ogr, osr
from shapely.geometry import Polygon

from harness import world as w  # noqa: F401
from harness.core import attempt
from harness.drivers.g01 import EPSG, L0, SR, T0, U, make
from terragraph_planner.common.data_io.building_group_loader import BuildingGroupLoader
from terragraph_planner.common.data_io.kml_library import extract_boundary_polygon
from terragraph_planner.common.geos import TransformerLib
from terragraph_planner.los.building import Building
from terragraph_planner.los.building_group import BuildingGroup
from terragraph_planner.los.helper import get_exclusion_zones

ogr.UseExceptions()
LEVEL = "model_checking"
RULE = "a distinct file, area or set of rooftops"
ASSUMPTIONS = [
    "areas and cut outlines are convex; outlines that are not cut may have any simple shape",
    "no drawn zone touches the border of the area",
    "the surface under detected rooftops has no holes",
]
LL = osr.SpatialReference()
LL.ImportFromEPSG(4326)
LL.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)

SHAPES = [
    [(0, 0), (10, 0), (10, 8), (0, 8)],
    [(0, 0), (16, 0), (16, 6), (6, 6), (6, 16), (0, 16)],  # L
    [(0, 0), (20, 0), (20, 16), (15, 16), (15, 3), (5, 3), (5, 16), (0, 16)],  # U: centroid outside
    [(0, 0), (30, 1), (0, 8)],  # sharp tip
    [(3, 0), (8, 0), (11, 3), (11, 8), (8, 11), (3, 11), (0, 8), (0, 3)],  # octagon
    [(0, 0), (5, 0), (10, 0), (10, 8), (5, 8), (0, 8)],  # points along the walls
    [(0, 0), (9, 3), (6, 12), (-3, 9)],  # turned square
    [(0, 0), (4, 0), (4, 2), (8, 2), (8, 0), (12, 0), (12, 10), (0, 10)],  # notch
    [(0, 0), (2, 0), (2, 2), (0, 2)],  # smaller than a cell
    [(0, 0), (12, 0), (15, 9), (6, 15), (-4, 7)],  # pentagon
]


def ring(rng, x, y, scale=8):
    s = rng.choice(SHAPES)
    s = [(x + a * scale, y + b * scale) for a, b in s]
    if rng.random() < 0.15:
        k = rng.randrange(len(s))
        s.insert(k, s[k])
    if rng.random() < 0.5:
        s.reverse()
    k = rng.randrange(len(s))
    return s[k:] + s[:k]


def poly(r):
    return Polygon([(L0 + x / U, T0 + y / U) for x, y in r])


def detect(rng, k):
    rings, x = [], 0
    for _ in range(rng.randint(1, 3)):
        rings.append(ring(rng, x + rng.randint(0, 15), rng.randint(0, 15), rng.choice([4, 8, 8, 9])))
        x += 340
    surf = []
    e = None
    if rng.random() < 0.8:
        r = rng.choice([4, 8, 8, 8, 16, 40])
        l, t = -60 - rng.randint(0, 7), 240 + rng.randint(0, 7)
        if rng.random() < 0.25:  # the grid starts near the first rooftop
            l, t = rng.choice([(min(p[0] for p in rings[0]) - rng.randint(0, 9), t), (l, max(p[1] for p in rings[0]) + rng.randint(0, 9))])
        nx, ny = (x + 60 - l) // r + 1, (t + 80) // r + 1
        ps = [poly(q).buffer(rng.choice([0, 0, 1.5])) for q in rings]
        hs = [rng.choice([1, 6, 12]) for _ in rings]
        slope = rng.choice([0, 0, 0.4])
        noise = rng.choice([0, 0, 1, 5])
        from shapely.geometry import Point

        v = []
        for j in range(ny):
            row = []
            for i in range(nx):
                px, py = l + i * r, t - j * r
                z = float(20 + int(slope * (i + j)) + rng.randint(0, noise))
                pt = Point(L0 + px / U, T0 + py / U)
                for q, h in zip(ps, hs):
                    if q.contains(pt):
                        z += h
                row.append(z)
            v.append(row)
        g = {"l": l, "t": t, "rx": r, "ry": r, "v": v, "box": {"x0": l, "y0": t - ny * r, "x1": l + nx * r, "y1": t}}
        surf = [g]
        e = make(g)
    lim = [] if rng.random() < 0.4 else [float(rng.choice([45, 89, 95, 120, 135, 150, 179]))]
    flags = [rng.random() < 0.6 for _ in range(3)]
    if not any(flags):
        flags[rng.randrange(3)] = True
    mount = rng.choice([0.0, 1.5, 3.0])
    bg = BuildingGroup([Building(poly(r)) for r in rings], SR)
    r = attempt(bg.detect_site_candidates, e, mount, lim[0] if lim else None, flags[0], flags[1], flags[2])
    case = {"kind": "detect", "rings": rings, "surf": surf, "mount": mount, "lim": lim,
            "corners": flags[0], "centers": flags[1], "highest": flags[2], "res": r[0], "sites": []}
    if r[0] == "ok":
        fwd = TransformerLib.get_tranformer(4326, EPSG)
        for s in r[1]:
            ux, uy = fwd.transform(s.longitude, s.latitude)
            case["sites"].append({"x": (ux - L0) * U, "y": (uy - T0) * U, "b": s.building_id, "type": s.site_type.name,
                                  "alt": "none" if s.altitude is None else float(s.altitude)})
    return case


# --- files -----------------------------------------------------------------
def ll_ring(rng, lon, lat, size):
    """A simple ring in millionths of a degree."""
    return [(lon + a * size, lat + b * size) for a, b in ring(rng, 0, 0, 1)]


def coords(r, z=False, close=True):
    pts = list(r) + ([r[0]] if close else [])
    return " ".join(f"{x / 1e6:.6f},{y / 1e6:.6f}" + (",12.5" if z else "") for x, y in pts)


def kml_poly(r, z=False, hole=None):
    s = f"<Polygon><outerBoundaryIs><LinearRing><coordinates>{coords(r, z)}</coordinates></LinearRing></outerBoundaryIs>"
    if hole:
        s += f"<innerBoundaryIs><LinearRing><coordinates>{coords(hole, z)}</coordinates></LinearRing></innerBoundaryIs>"
    return s + "</Polygon>"


def hole_of(r):
    """A small triangle inside the ring (its first three corners shrunk)."""
    q = Polygon(r).representative_point()
    x, y = int(q.x), int(q.y)
    return [(x - 2, y - 2), (x + 3, y - 2), (x, y + 2)]


def kml_text(rng, rings, extra=True):
    marks = []
    rest = list(rings)
    while rest:
        n = 2 if len(rest) > 1 and rng.random() < 0.2 else 1
        part, rest = rest[:n], rest[n:]
        z = rng.random() < 0.3
        hs = [hole_of(r) if rng.random() < 0.2 else None for r in part]
        body = "".join(kml_poly(r, z, h) for r, h in zip(part, hs))
        if n > 1 or rng.random() < 0.1:
            body = f"<MultiGeometry>{body}</MultiGeometry>"
        marks.append(f"<Placemark><name>p{len(marks)}</name>{body}</Placemark>")
    if extra and rng.random() < 0.4:
        marks.append("<Placemark><name>pt</name><Point><coordinates>-122.1,37.4,0</coordinates></Point></Placemark>")
    if extra and rng.random() < 0.3:
        marks.append("<Placemark><name>ln</name><LineString><coordinates>-122.1,37.4 -122.2,37.5</coordinates></LineString></Placemark>")
    if extra and rng.random() < 0.15:
        marks.append("<Placemark><name>empty</name></Placemark>")
    k = rng.randint(0, len(marks))
    lay = rng.choice(["one", "two", "nested", "root"])
    a, b = "".join(marks[:k]), "".join(marks[k:])
    if lay == "one":
        body = f"<Folder><name>f</name>{a}{b}</Folder>"
    elif lay == "two":
        body = f"<Folder><name>f</name>{a}</Folder><Folder><name>g</name>{b}</Folder>"
    elif lay == "nested":
        body = f"<Folder><name>f</name>{a}<Folder><name>g</name>{b}</Folder></Folder>"
    else:
        body = a + b
    return f'<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><name>d</name>{body}</Document></kml>'


def put(d, rng, text, ext):
    p = os.path.join(d, "area." + ext)
    if ext.lower() == "kml":
        with open(p, "w") as f:
            f.write(text)
    else:
        with zipfile.ZipFile(p, "w") as z:
            if rng.random() < 0.3:
                z.writestr("files/icon.png", b"x")
            z.writestr(rng.choice(["doc.kml", "area.kml", "doc.KML"]), text)
    return p


def micro(p, scale=1e6, x0=0.0, y0=0.0):
    if p.geom_type != "Polygon":
        return [[0, 0]]
    return [[round((c[0] - x0) * scale), round((c[1] - y0) * scale)] for c in list(p.exterior.coords)[:-1]]


def rings_apart(rng, n, lon=-122150000, lat=37480000, size=None):
    return [ll_ring(rng, lon + 700 * q, lat + rng.randint(-90, 90), size or rng.choice([7, 11])) for q in range(n)]


def shp(d, rng, rings, what):
    """A zipped shape file: `what` names its peculiarity."""
    src = os.path.join(d, "src")
    os.mkdir(src)
    utm = what == "utm"
    ds = ogr.GetDriverByName("ESRI Shapefile").CreateDataSource(os.path.join(src, "b.shp"))
    sr = SR if utm else LL
    lay = ds.CreateLayer("b", srs=None if what == "nocrs" else sr, geom_type=ogr.wkbPolygon25D if what == "z" else ogr.wkbPolygon)
    for r in rings:
        pts = [(L0 + (x % 100000) / 8, T0 + (y % 100000) / 8) if utm else (x / 1e6, y / 1e6) for x, y in list(r) + [r[0]]]
        t = ",".join(f"{x!r} {y!r}" + (" 7.5" if what == "z" else "") for x, y in pts)
        if what == "multi":
            t = f"MULTIPOLYGON((({t})),((0 0,0 1,1 1,0 0)))"
        elif what == "hole" and not utm:
            h = hole_of(r)
            t2 = ",".join(f"{x / 1e6!r} {y / 1e6!r}" for x, y in h + [h[0]])
            t = f"POLYGON(({t}),({t2}))"
        else:
            t = f"POLYGON {'Z ' if what == 'z' else ''}(({t}))"
        f = ogr.Feature(lay.GetLayerDefn())
        f.SetGeometry(ogr.CreateGeometryFromWkt(t))
        lay.CreateFeature(f)
    ds = None
    p = os.path.join(d, "b.zip")
    names = sorted(os.listdir(src))
    with zipfile.ZipFile(p, "w") as z:
        if what == "mac":
            z.writestr("__MACOSX/", "")
        pre = "inner/" if what == "folder" else ""
        for n in names:
            z.write(os.path.join(src, n), pre + n)
            if what in ("mac", "macfiles"):
                z.writestr("__MACOSX/._" + n, b"x")
            if what == "two":
                z.write(os.path.join(src, n), "c" + n)
        if what == "readme":
            z.writestr("readme.txt", "x")
    return p


SHP = ["flat", "flat", "utm", "z", "hole", "mac", "macfiles", "readme", "folder", "two", "nocrs", "multi"]


def outline(rng, k):
    d = tempfile.mkdtemp()
    try:
        n = rng.choice([1, 2, 3, 5])
        rings = rings_apart(rng, n)
        kind = rng.choice(["kml", "kml", "kmz", "shp", "shp", "shp", "write"])
        scale, x0, y0, refuse = 1e6, 0.0, 0.0, False
        if kind == "shp":
            what = rng.choice(SHP)
            refuse = what in ("folder", "two", "nocrs", "multi")
            p = shp(d, rng, rings, what)
            kind += "-" + what
            if what == "utm":
                scale, x0, y0 = 8.0, L0, T0
                rings = [[(x % 100000, y % 100000) for x, y in r] for r in rings]
        elif kind == "write":
            rings = [[(x - 122150000 * -1, y - 37480000) for x, y in r] for r in rings]
            scale, x0, y0 = 8.0, L0, T0
            bg = BuildingGroup([Building(poly(r)) for r in rings], SR.Clone())
            p = os.path.join(d, "w.zip")
            q = attempt(BuildingGroupLoader().write, p, bg)
            if q[0] != "ok":
                return {"kind": "outline", "file": kind, "refuse": False, "res": q[0], "errors": 0, "want": rings, "got": []}
        else:
            p = put(d, rng, kml_text(rng, rings, extra=False), kind)
        ld = BuildingGroupLoader()
        r = attempt(ld.read, p)
        got = [micro(b.polygon, scale, x0, y0) for b in r[1].building_list] if r[0] == "ok" else []
        return {"kind": "outline", "file": kind, "refuse": refuse, "res": r[0], "errors": len(ld.errors), "want": rings, "got": got}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def drawn(rng, k):
    """Zones and boundaries out of KML files."""
    d = tempfile.mkdtemp()
    try:
        if rng.random() < 0.5:
            area = [(-122150001, 37480001), (-122146001, 37480001), (-122145501, 37482001), (-122149501, 37483001)]
            rings = []
            for _ in range(rng.choice([0, 1, 2, 3, 4])):
                x, y = -122150800 + 2 * rng.randint(0, 2700), 37479800 + 2 * rng.randint(0, 1700)
                rings.append([(2 * (a // 2), 2 * (b // 2)) for a, b in ll_ring(rng, x, y, rng.choice([10, 20, 60]))])
            ext = rng.choice(["kml", "kml", "kmz", "KML", "csv", "none"])
            if ext == "csv":
                p = os.path.join(d, "s.csv")
                with open(p, "w") as f:
                    f.write("latitude,longitude\n37.4,-122.1\n")
            elif ext == "none":
                p = rng.choice([None, ""])
                ext = "csv"
            else:
                p = put(d, rng, kml_text(rng, rings), ext)
            r = attempt(get_exclusion_zones, p, Polygon([(x / 1e6, y / 1e6) for x, y in area]))
            return {"kind": "zones", "want": rings, "area": area, "ext": ext, "res": r[0],
                    "got": [micro(q) for q in r[1]] if r[0] == "ok" else []}
        lon, lat = rng.choice([(-122150000, 37480000), (-180000000 + 3000, 10000), (179990000, -20000), (5999500, 51000000),
                               (-60000000, -33000000), (11990000, -200), (100, 45000000), (-90002000, 15000000)])
        rings = rings_apart(rng, rng.choice([0, 1, 1, 1, 1, 2]), lon, lat, 40)
        p = put(d, rng, kml_text(rng, rings), rng.choice(["kml", "kmz"]))
        r = attempt(extract_boundary_polygon, p)
        case = {"kind": "boundary", "want": rings, "res": r[0], "got": [], "epsg": 0, "lon": "0.0", "south": False}
        if len(rings) == 1:
            c = Polygon([(x / 1e6, y / 1e6) for x, y in rings[0]]).centroid
            case["lon"], case["south"] = float(c.x), bool(c.y < 0)
        if r[0] == "ok":
            case["got"], case["epsg"] = [micro(r[1][0])], int(r[1][1])
        return case
    finally:
        shutil.rmtree(d, ignore_errors=True)


CONVEX = [s for k, s in enumerate(SHAPES) if k in (0, 3, 4, 6, 8, 9)]


AREAS = [(a, [a], []) for a in (
    [(0, 0), (800, 0), (800, 640), (0, 640)],
    [(0, 100), (500, 0), (900, 300), (600, 700), (100, 600)],
    [(0, 0), (900, 0), (300, 700)],
)] + [
    ([(0, 0), (900, 0), (900, 640), (520, 640), (520, 300), (430, 300), (430, 640), (0, 640)],  # a yard left out
     [[(0, 0), (900, 0), (900, 300), (0, 300)], [(0, 300), (430, 300), (430, 640), (0, 640)], [(520, 300), (900, 300), (900, 640), (520, 640)]],
     [(1, 2, (0, 300), (430, 300)), (1, 3, (520, 300), (900, 300))]),
    ([(0, 0), (900, 0), (450, 250), (900, 640), (0, 640)],
     [[(0, 0), (450, 250), (0, 640)], [(0, 0), (900, 0), (450, 250)], [(450, 250), (900, 640), (0, 640)]],
     [(1, 2, (0, 0), (450, 250)), (1, 3, (450, 250), (0, 640))]),
]


def cut(rng, k):
    back = TransformerLib.get_tranformer(EPSG, 4326)
    area, parts, joins = rng.choice(AREAS)
    rings, x = [], -100
    for q in range(rng.randint(1, 6)):
        s, m = rng.choice(CONVEX), rng.choice([2, 4, 6, 8, 10, 14])
        ox, oy = -150 + 200 * q + rng.randint(0, 40), rng.choice([rng.randint(-150, 700), rng.randint(0, 500), -40, 560])
        rings.append([(ox + int(a * m), oy + int(b * m)) for a, b in s])
    if len(parts) > 1 and rng.random() < 0.7:  # across the gap, or along its edge
        x0, x1 = rng.randint(60, 500), rng.randint(540, 800)
        if rng.random() < 0.6:
            y, z = rng.choice([rng.randint(120, 280), rng.randint(320, 500)]), rng.randint(570, 700)
            rings.append([(x0, y), (x1, y), (x1 + rng.randint(0, 90), z), (x0, z)])
        elif len(area) == 8:  # one wall is a piece of the border
            rings.append([(430, 300), (x1, rng.randint(200, 280)), (x1, rng.randint(500, 620)), (430, 640)])
    ll = [Polygon([back.transform(L0 + a / U, T0 + b / U) for a, b in r]) for r in rings]
    al = Polygon([back.transform(L0 + a / U, T0 + b / U) for a, b in area])
    crs = rng.choice(["ll", "ll", "utm", "web"])
    sr = osr.SpatialReference()
    if crs == "ll":
        sr.ImportFromEPSG(4326)
        ps = ll
    elif crs == "utm":
        sr.ImportFromEPSG(EPSG)
        ps = [poly(r) for r in rings]
    else:
        sr.ImportFromEPSG(3857)
        tr = TransformerLib.get_tranformer(4326, 3857)
        ps = [Polygon([tr.transform(*c) for c in p.exterior.coords]) for p in ll]
    bg = BuildingGroup([Building(p) for p in ps], sr)
    r = attempt(bg.preprocess, al, EPSG, rng.choice([None, []]))
    case = {"kind": "cut", "rings": rings, "area": area, "parts": parts, "joins": joins, "res": r[0], "got": [], "probes": []}
    if r[0] == "ok":
        case["got"] = [micro(b.polygon, 8.0, L0, T0) for b in bg.building_list]
        for r in rings:
            for _ in range(4):
                a, b = rng.choice(r), rng.choice(r)
                t = rng.random()
                case["probes"].append([int(a[0] + t * (b[0] - a[0]) + rng.randint(-9, 9)), int(a[1] + t * (b[1] - a[1]) + rng.randint(-9, 9))])
    return case


def run(ctx):
    jobs = [
        (detect, "detect", ctx.pick(1200, 12000)),
        (outline, "outline", ctx.pick(700, 7000)),
        (drawn, "drawn", ctx.pick(700, 7000)),
        (cut, "cut", ctx.pick(700, 7000)),
    ]
    cases, keys = [], []
    for fn, name, n in jobs:
        for k, c in enumerate(ctx.pmap(fn, range(n))):
            cases.append(c)
            keys.append(f"{name}#{k}")
            ctx.nontrivial(f"{name}:{c}")
    ctx.judge("Rooftops", cases, keys, op="RoofFails")
