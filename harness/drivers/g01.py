"""G01: elevation grids, their files and sums (spec/Grid.tla).

Random courses of questions to the real Elevation class are replayed against
the grid state machine; every order of asking a 2 x 2 grid is explored with
TLC and replayed; GeoTIFF files are cut, mosaicked, dated, reprojected and
added through the real loader.
"""
import datetime
import math
import os
import shutil
import tempfile

import numpy as np
from osgeo import gdal, osr

from harness import tlc
from harness import world as w  # noqa: F401
from harness.core import attempt
from terragraph_planner.common.configuration.configs import GISDataParams
from terragraph_planner.common.data_io.elevation_loader import ElevationLoader
from terragraph_planner.common.geos import TransformerLib
from terragraph_planner.common.structs import UTMBoundingBox
from terragraph_planner.los.core import load_gis_data
from terragraph_planner.los.elevation import Elevation
from terragraph_planner.los.helper import upsample_to_same_resolution

gdal.UseExceptions()
LEVEL = "model_checking"
RULE = "a distinct course of questions to a grid with at least one hole or change of frame, or a distinct set of files"
ASSUMPTIONS = [
    "cells are at least half a metre wide (finer grids are thinned out before heights are borrowed)",
    "GDAL and PROJ read, cut and reproject rasters correctly",
    "a grid position is the corner the raster gives for the cell (see the finding on cell centres)",
]
HOLE = -32768
EPSG = 32610
L0, T0 = 575000, 4148000
U = 8  # eighths of a metre
SR = osr.SpatialReference()
SR.ImportFromEPSG(EPSG)


def box(b):
    return UTMBoundingBox(
        min_utm_x=L0 + b["x0"] / U, min_utm_y=T0 + b["y0"] / U, max_utm_x=L0 + b["x1"] / U, max_utm_y=T0 + b["y1"] / U
    )


def make(g, dtype=np.float32):
    return Elevation(
        np.array(g["v"], dtype=dtype),
        box(g["box"]),
        g["rx"] / U,
        g["ry"] / U,
        L0 + g["l"] / U,
        T0 + g["t"] / U,
        SR,
        None,
    )


def e8(v):
    """Eighths of a metre, or a value no grid can have."""
    r = round(v * U, 3)
    return int(r) if r == int(r) else 99999999


def grid(e):
    b = e.utm_bounding_box
    return {
        "l": e8(e.left_top_x - L0),
        "t": e8(e.left_top_y - T0),
        "rx": e8(e.x_resolution),
        "ry": e8(e.y_resolution),
        "v": rows(e.data_matrix),
        "box": {"x0": e8(b.min_utm_x - L0), "y0": e8(b.min_utm_y - T0), "x1": e8(b.max_utm_x - L0), "y1": e8(b.max_utm_y - T0)},
    }


def rows(m):
    m = np.asarray(m)
    if m.ndim != 2 or m.size == 0:
        return [[-1.0]]
    return [[float(z) for z in r] for r in m]


def heights(rng, nx, ny, holes):
    top = rng.choice([3, 40, 40, 0])
    return [[float(HOLE) if rng.random() < holes else float(rng.randint(0, top)) for _ in range(nx)] for _ in range(ny)]


def frame(rng, small=False):
    rx = rng.choice([4, 8, 8, 12, 16, 24, 40, 96, 240])
    ry = rx if rng.random() < 0.7 else rng.choice([4, 8, 12, 16, 24, 40])
    nx, ny = rng.randint(1, 4 if small else 8), rng.randint(1, 4 if small else 8)
    return {
        "l": rng.randint(-40, 40),
        "t": rng.randint(-40, 40),
        "rx": rx,
        "ry": ry,
        "nx": nx,
        "ny": ny,
    }


def random_grid(rng):
    f = frame(rng)
    g = {k: f[k] for k in ("l", "t", "rx", "ry")}
    holes = rng.choice([0, 0.1, 0.4, 0.4, 0.8, 1 if rng.random() < 0.2 else 0.97])
    g["v"] = heights(rng, f["nx"], f["ny"], holes)
    # the box is whatever the cells stand for, up to the way the area was cut
    sx, sy = (0, 0) if rng.random() < 0.5 else (-f["rx"] // 2, f["ry"] // 2)
    x0, y1 = f["l"] + sx, f["t"] + sy
    g["box"] = {"x0": x0, "y0": y1 - f["ny"] * f["ry"], "x1": x0 + f["nx"] * f["rx"], "y1": y1}
    return g


def place(rng, g, off=0.15):
    """A place that is not half way between two cells."""
    nx, ny = len(g["v"][0]), len(g["v"])
    while True:
        m = 3 if rng.random() < off else 0
        x = rng.randint(g["l"] - (m * g["rx"]) - g["rx"], g["l"] + (nx + m) * g["rx"])
        y = rng.randint(g["t"] - (ny + m) * g["ry"], g["t"] + (m * g["ry"]) + g["ry"])
        if 2 * ((x - g["l"]) % g["rx"]) != g["rx"] and 2 * ((g["t"] - y) % g["ry"]) != g["ry"]:
            return x, y


def out(op, r, key=None, conv=float):
    op["res"] = r[0]
    if r[0] == "ok":
        if key:
            op[key] = conv(r[1])
    return op


def question(rng, e, g):
    """One random question to the real grid e (g its frame) and the answer."""
    k = rng.choice(["value"] * 5 + ["near", "list", "within", "within", "matrix", "matrix", "columns", "columns", "resample", "sum", "sum"])
    ux, uy = lambda x: L0 + x / U, lambda y: T0 + y / U
    if k == "value":
        x, y = place(rng, g)
        return e, out({"k": k, "x": x, "y": y}, attempt(e.get_value, ux(x), uy(y)), "z")
    if k == "near":
        if not (np.asarray(e.data_matrix) != HOLE).any():
            k = "list"
        else:
            pts = [place(rng, g, 0.5) for _ in range(rng.randint(1, 3))]
            r = attempt(e.find_closest_valid_elevation, [(ux(x), uy(y)) for x, y in pts])
            return e, out({"k": k, "pts": pts}, r, "z", lambda z: [float(a) for a in z])
    if k == "list":
        r = attempt(e.get_data_as_list)
        op = out({"k": k}, r)
        op["pts"] = [[e8(a[0] - L0), e8(a[1] - T0)] for a in r[1]] if r[0] == "ok" else []
        op["z"] = [float(a[2]) for a in r[1]] if r[0] == "ok" else []
        return e, op
    if k in ("within", "matrix", "columns"):
        (x0, y0), (x1, y1) = place(rng, g, 0.3), place(rng, g, 0.3)
        if rng.random() < 0.5:  # a small window, as around a corner
            d = rng.choice([4, 8, 16, 24])
            x1, y1 = x0 + d, y0 + d
        x0, x1, y0, y1 = min(x0, x1), max(x0, x1), min(y0, y1), max(y0, y1)
        op = {"k": k, "x0": x0, "y0": y0, "x1": x1, "y1": y1}
        a = (ux(x0), uy(y0), ux(x1), uy(y1))
        if k == "matrix":
            return e, out(op, attempt(e.get_value_matrix_within_bound, *a), "m", rows)
        if k == "within":
            r = attempt(e.get_value_list_within_bound, *a)
            if r[0] == "DataException" and not (np.asarray(e.data_matrix) != HOLE).any():
                return e, {"k": "list", "res": r[0], "pts": [], "z": []}
        else:
            op["cx"], op["cy"] = place(rng, g)
            op["rad"] = rng.choice([8, 24, 80, 2000])
            if rng.random() < 0.5:
                op["x0"], op["x1"], op["y0"], op["y1"] = x1, x0, y0, y1
            cx, cy, rad = ux(op["cx"]), uy(op["cy"]), op["rad"] / U
            r = attempt(
                e.get_all_obstructions,
                ux(op["x0"]), uy(op["y0"]), ux(op["x1"]), uy(op["y1"]),
                lambda x, y: (x - cx) ** 2 + (y - cy) ** 2 <= rad * rad,
            )
        op["res"] = r[0]
        op["pts"] = [[e8(p.x - L0), e8(p.y - T0)] for p in r[1]] if r[0] == "ok" else []
        op["z"] = [float(p.z) for p in r[1]] if r[0] == "ok" else []
        return e, op
    if k == "resample":
        rx, ry = (rng.choice([4, 8, 12, 16, 24, 40]) for _ in "xy")
        big = (g["box"]["x1"] - g["l"]) // rx > 40 or (g["t"] - g["box"]["y0"]) // ry > 40
        if big or rng.random() < 0.2:
            rx, ry = g["rx"], g["ry"]
        r = attempt(e.set_resolution, rx / U, ry / U)
        op = out({"k": k, "rx": rx, "ry": ry}, r)
        op["g"] = grid(e)
        return e, op
    other = dict(g)
    nx, ny = len(g["v"][0]), len(g["v"])
    if rng.random() < 0.15:
        other[rng.choice(["l", "t", "rx", "ry"])] += rng.choice([4, 8])
    elif rng.random() < 0.1:
        nx, ny = rng.choice([(nx + 1, ny), (nx, ny + 1)])
    other["v"] = heights(rng, nx, ny, rng.choice([0, 0.3]))
    minus = rng.random() < 0.5
    h = make(other)
    r = attempt((lambda: e - h) if minus else (lambda: e + h))
    op = {"k": "sum", "with": other, "minus": minus, "res": r[0]}
    if r[0] == "ok":
        op["g"] = grid(r[1])
        e = r[1]
    return e, op


def course(rng, k):
    g = random_grid(rng)
    e = make(g, np.float32 if rng.random() < 0.8 else np.float64)
    ops = []
    for _ in range(rng.randint(2, 9)):
        e, op = question(rng, e, grid(e))
        ops.append(op)
        if op["res"] not in ("ok", "DataException"):
            break
    return {"kind": "course", "g": g, "ops": ops}


def explored(v):
    """Replay of one pattern of holes: every place, then every pair of places."""
    g = {"l": 0, "t": 0, "rx": 8, "ry": 8, "v": v, "box": {"x0": -4, "y0": -12, "x1": 12, "y1": 4}}
    places = [(0, 0), (10, 1), (1, -9), (7, -7), (2, -3)]
    res = []
    for a in places:
        for b in places:
            e = make(g)
            ops = [out({"k": "value", "x": x, "y": y}, attempt(e.get_value, L0 + x / U, T0 + y / U), "z") for x, y in (a, b, a)]
            r = attempt(e.get_data_as_list)
            op = out({"k": "list"}, r)
            op["pts"] = [[e8(p[0] - L0), e8(p[1] - T0)] for p in r[1]] if r[0] == "ok" else []
            op["z"] = [float(p[2]) for p in r[1]] if r[0] == "ok" else []
            res.append({"kind": "course", "g": g, "ops": ops + [op]})
    return res


def aligned(rng, k):
    W, H = rng.randint(4, 30) * 8, rng.randint(4, 30) * 8
    b = {"x0": rng.randint(-9, 9) * 8, "y0": rng.randint(-9, 9) * 8}
    b["x1"], b["y1"] = b["x0"] + W, b["y0"] + H
    gs = []
    for _ in range(2):
        rx = rng.choice([8, 8, 16, 24, 40, 4 if W < 80 else 8])
        ry = rx if rng.random() < 0.8 else rng.choice([8, 16, 24])
        l = b["x0"] - rng.choice([0, 0, rx // 2, rng.randint(0, rx - 1)])
        t = b["y1"] + rng.choice([0, 0, ry // 2, rng.randint(0, ry - 1)])
        nx, ny = max(1, -(-(b["x1"] - l) // rx)), max(1, -(-(t - b["y0"]) // ry))
        gs.append({"l": l, "t": t, "rx": rx, "ry": ry, "box": b, "v": heights(rng, nx, ny, rng.choice([0, 0, 0.2]))})
    a, c = make(gs[0]), make(gs[1])
    r = attempt(upsample_to_same_resolution, a, c)
    case = {"kind": "align", "a": gs[0], "b": gs[1], "res": r[0]}
    if any((np.array(g["v"]) == HOLE).all() for g in gs):
        return aligned(rng, k)
    if r[0] == "ok":
        case.update(a2=grid(a), b2=grid(c), sum=attempt(lambda: a + c)[0])
    return case


def save(d, name, g, dtype=None, date=None):
    p = os.path.join(d, name)
    ElevationLoader().write(p, make(g, np.float32))
    if date:
        ds = gdal.Open(p, gdal.GA_Update)
        ds.SetMetadataItem("TIFFTAG_DATETIME", date)
        ds = None
    return p


def files(rng, k):
    d = tempfile.mkdtemp()
    try:
        rx = rng.choice([8, 8, 16, 24, 40])
        ry = rx
        l, t = rng.randint(-20, 20) * 8, rng.randint(-20, 20) * 8
        nx, ny = rng.randint(2, 9), rng.randint(2, 9)
        n = rng.choice([1, 1, 2, 3])
        tiles, holes = [], rng.choice([0, 0, 0.2])
        for q in range(n):
            # side by side, or overlapping with the same lattice
            dx = q * nx if rng.random() < 0.6 else rng.randint(-2, nx)
            dy = 0 if rng.random() < 0.6 else rng.randint(-2, ny)
            tl, tt = l + dx * rx, t - dy * ry
            tiles.append({"l": tl, "t": tt, "rx": rx, "ry": ry, "v": heights(rng, nx, ny, holes),
                          "box": {"x0": tl, "y0": tt - ny * ry, "x1": tl + nx * rx, "y1": tt}})
        x0, x1 = min(a["box"]["x0"] for a in tiles), max(a["box"]["x1"] for a in tiles)
        y0, y1 = min(a["box"]["y0"] for a in tiles), max(a["box"]["y1"] for a in tiles)
        m = rng.choice([0, 0, 16, -16, 40])
        b = {"x0": x0 + rng.randint(-2, 2) * 8 + m, "x1": x1 + rng.randint(-2, 2) * 8 - m,
             "y0": y0 + rng.randint(-2, 2) * 8 + m, "y1": y1 + rng.randint(-2, 2) * 8 - m}
        if b["x1"] - b["x0"] < 2 * rx or b["y1"] - b["y0"] < 2 * ry:
            b = {"x0": x0, "x1": x1, "y0": y0, "y1": y1}
        paths = [save(d, f"t{q}.tif", a) for q, a in enumerate(tiles)]
        r = attempt(ElevationLoader().read, paths, EPSG, box(b))
        case = {"kind": "file", "tiles": tiles, "box": b, "res": r[0]}
        if r[0] == "ok":
            case["g"] = grid(r[1])
        return case
    finally:
        shutil.rmtree(d, ignore_errors=True)


def kml(path, ring):
    c = " ".join(f"{lon!r},{lat!r},0" for lon, lat in ring)
    with open(path, "w") as f:
        f.write(
            '<?xml version="1.0" encoding="UTF-8"?><kml xmlns="http://www.opengis.net/kml/2.2"><Document><Folder><name>a</name>'
            f"<Placemark><name>p</name><Polygon><outerBoundaryIs><LinearRing><coordinates>{c}</coordinates>"
            "</LinearRing></outerBoundaryIs></Polygon></Placemark></Folder></Document></kml>"
        )
    return path


def surface(rng, k):
    d = tempfile.mkdtemp()
    try:
        back = TransformerLib.get_tranformer(EPSG, 4326)
        W, H = rng.randint(14, 34) * 8, rng.randint(14, 34) * 8
        mode = rng.choice(["dsm", "dsm", "dtm"])
        area = {"x0": 0, "y0": 0, "x1": W, "y1": H}
        gs = {}
        same = rng.choice([8, 16, 24]) if rng.random() < 0.5 else None
        for name in (("dtm", "dhm") if mode == "dsm" else ("dsm", "dhm")):
            r = same or rng.choice([8, 16, 24, 40])
            l, t = -r * rng.randint(1, 3) - rng.choice([0, 0, 8]), H + r * rng.randint(1, 3) + rng.choice([0, 0, 8])
            if same:
                l, t = -same * 2, H - H % same + same * 3
            nx, ny = -(-(W - l) // r) + rng.randint(1, 2), t // r + rng.randint(1, 2)
            gs[name] = {"l": l, "t": t, "rx": r, "ry": r, "v": heights(rng, nx, ny, 0),
                        "box": {"x0": l, "y0": t - ny * r, "x1": l + nx * r, "y1": t}}
        paths = {n: save(d, n + ".tif", g) for n, g in gs.items()}
        i = 4  # the area stays half a metre inside its box
        ring = [back.transform(L0 + x / U, T0 + y / U) for x, y in [(i, i), (W - i, i), (W - i, H - i), (i, H - i), (i, i)]]
        p = GISDataParams(
            boundary_polygon_file_path=kml(os.path.join(d, "b.kml"), ring),
            dsm_file_paths=[paths["dsm"]] if "dsm" in paths else [],
            dtm_file_path=paths.get("dtm"),
            dhm_file_path=paths["dhm"],
        )
        r = attempt(load_gis_data, p)
        case = {"kind": "surface", "mode": mode, "res": r[0], **gs}
        if r[0] == "ok":
            _, dsm, dtm, _ = r[1]
            probes = []
            for _ in range(12):
                x, y = rng.randint(i, W - i - 64), rng.randint(i + 64, H - i)  # the far rims may be cut off
                a = [attempt(e.get_value, L0 + x / U, T0 + y / U) if e is not None else ("none", 0) for e in (dsm, dtm)]
                probes.append({"x": x, "y": y, "dsm": float(a[0][1]) if a[0][0] == "ok" else -1e9,
                               "dtm": float(a[1][1]) if a[1][0] == "ok" else -1e9})
            case["probes"] = probes
        return case
    finally:
        shutil.rmtree(d, ignore_errors=True)


def plane(rng, k):
    """A sloping plane in geographic coordinates, read back in UTM."""
    d = tempfile.mkdtemp()
    try:
        lat, lon = rng.choice([(37.48, -122.15), (-33.9, 18.4), (51.5, -0.1), (1.2, 103.8)])
        zone = int((lon + 180) // 6) + 1
        epsg = (32600 if lat >= 0 else 32700) + zone
        fwd, back = TransformerLib.get_tranformer(4326, epsg), TransformerLib.get_tranformer(epsg, 4326)
        cx, cy = fwd.transform(lon, lat)
        step = rng.choice([1e-5, 2e-5])
        n = 40
        a, b = rng.choice([-0.5, 0.3, 1.0]), rng.choice([-1.0, 0.4, 0.7])
        m = np.zeros((n, n), dtype=np.float32)
        left, top = lon - n * step / 2, lat + n * step / 2
        for j in range(n):
            for i in range(n):
                x, y = fwd.transform(left + (i + 0.5) * step, top - (j + 0.5) * step)
                m[j, i] = 100 + a * (x - cx) + b * (y - cy)
        p = os.path.join(d, "p.tif")
        ds = gdal.GetDriverByName("GTiff").Create(p, n, n, 1, gdal.GDT_Float32)
        ds.SetGeoTransform([left, step, 0, top, 0, -step])
        sr = osr.SpatialReference()
        sr.ImportFromEPSG(4326)
        ds.SetProjection(sr.ExportToWkt())
        ds.GetRasterBand(1).WriteArray(m)
        ds = None
        h = int(n * step * 111000 * 0.35)
        bb = UTMBoundingBox(min_utm_x=math.floor(cx - h), min_utm_y=math.floor(cy - h), max_utm_x=math.ceil(cx + h), max_utm_y=math.ceil(cy + h))
        r = attempt(ElevationLoader().read, [p], epsg, bb)
        case = {"kind": "plane", "res": r[0], "slack": (abs(a) + abs(b)) * step * 111000 * 2.2, "probes": []}
        if r[0] == "ok":
            for _ in range(8):
                x, y = cx + rng.uniform(-h, h), cy + rng.uniform(-h, h)
                z = attempt(r[1].get_value, x, y)
                case["probes"].append({"z": float(z[1]) if z[0] == "ok" else 1e9, "want": 100 + a * (x - cx) + b * (y - cy)})
        del back
        return case
    finally:
        shutil.rmtree(d, ignore_errors=True)


def admit(rng, item):
    age, cm = item
    now = datetime.datetime.now()
    date = {
        "none": None,
        "recent": now - datetime.timedelta(days=365 * 19),
        "yesterday": now - datetime.timedelta(days=1),
        "old": now - datetime.timedelta(days=365 * 21 + 10),
        "future": now + datetime.timedelta(days=40),
        "garbled": "some day in May",
    }[age]
    if isinstance(date, datetime.datetime):
        date = date.strftime("%Y:%m:%d %H:%M:%S")
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "f.tif")
        n = 12
        ds = gdal.GetDriverByName("GTiff").Create(p, n, n, 1, gdal.GDT_Float32)
        ds.SetGeoTransform([L0, cm / 100, 0, T0, 0, -cm / 100])
        ds.SetSpatialRef(SR)
        ds.GetRasterBand(1).WriteArray(np.ones((n, n), dtype=np.float32))
        if date:
            ds.SetMetadataItem("TIFFTAG_DATETIME", date)
        ds = None
        ld = ElevationLoader()
        s = n * cm / 100
        r = attempt(ld.read, [p], EPSG, UTMBoundingBox(min_utm_x=L0, min_utm_y=T0 - s, max_utm_x=L0 + s, max_utm_y=T0))
        return {"kind": "admit", "age": age, "pixel": cm, "res": r[0], "refused": len(ld.errors) > 0}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def centre():
    """The height in the middle of a raster cell is the one of that cell."""
    g = {"l": 0, "t": 0, "rx": 32, "ry": 32, "v": [[1.0, 2.0], [3.0, 4.0]], "box": {"x0": 0, "y0": -64, "x1": 64, "y1": 0}}
    d = tempfile.mkdtemp()
    try:
        e = ElevationLoader().read([save(d, "c.tif", g)], EPSG, box(g["box"]))
        return {"kind": "centre", "z": float(e.get_value(L0 + 3.0, T0 - 3.0)), "want": 1.0}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    rc, es, dist, gen, rest = tlc.edges(
        None, "GridMC", "SPECIFICATION Spec\nINVARIANT NoHoleAnswer\nINVARIANT Steady\nINVARIANT Kept\nCHECK_DEADLOCK FALSE\n", workers=8
    )
    if rc != 0:
        raise tlc.TlcError(rest)
    ctx.model(dist, gen, "GridMC")
    small = [[[float(z) for z in r] for r in e["v"]] for e in es if e["k"] == "I"]
    cases = [c for v in small for c in explored(v)]
    ctx.judge("Grid", cases, ["orders"] * len(cases))
    jobs = [
        (course, "course", ctx.pick(2500, 25000)),
        (aligned, "align", ctx.pick(250, 2500)),
        (files, "file", ctx.pick(250, 2500)),
        (surface, "surface", ctx.pick(120, 1200)),
        (plane, "plane", ctx.pick(24, 160)),
    ]
    cases, keys = [], []
    for fn, name, n in jobs:
        for k, c in enumerate(ctx.pmap(fn, range(n))):
            cases.append(c)
            keys.append(f"{name}#{k}")
            ctx.nontrivial(f"{name}:{c}")
    items = [(a, cm) for a in ("none", "recent", "yesterday", "old", "future", "garbled") for cm in (12, 20, 100, 3000, 3400, 3600, 6000)]
    for it, c in zip(items, ctx.pmap(admit, items)):
        cases.append(c)
        keys.append(f"admit:{it[0]}:{it[1]}")
    cases.append(centre())
    keys.append("file:cell-centre")
    ctx.judge("Grid", cases, keys)
