"""T03: identity and derived geometry of sites, sectors and links (spec/Elements.tla)."""
import itertools

from harness import world as w
from harness.core import attempt
from terragraph_planner.common import geos
from terragraph_planner.common.geos import GeoLocation

LEVEL = "model_checking"
RULE = "a construction attempt or a geometric configuration with its own clause profile"


def res(r):
    return r if r == "ok" else "refused" if r in ("TopologyException", "GeoSystemException") else "crash_" + r


def pt(s):
    return {"lat": s.latitude, "lon": s.longitude, "alt": s.altitude}


def rand_loc(rng, near=None, span=1000.0):
    if near is None:
        lat = rng.choice([rng.uniform(-75, 75), rng.uniform(-1, 1), 0.0])
        lon = rng.choice([rng.uniform(-178, 178), rng.uniform(-1, 1), 6.0 * rng.randint(-29, 29)])
        alt = rng.choice([None, 0.0, rng.uniform(-30, 300)])
        return GeoLocation(latitude=lat, longitude=lon, altitude=alt)
    alt = rng.choice([None, near.altitude, 0.0, rng.uniform(-30, 300)])
    return w.at(rng.uniform(-span, span), rng.uniform(-span, span), alt, near.latitude, near.longitude)


def link_case(l):
    return {
        "kind0": "facts",
        "p": pt(l.tx_site),
        "q": pt(l.rx_site),
        "wireless": l.is_wireless,
        "sectored": l.tx_sector is not None,
        "distance": l.distance,
        "txaz": l.tx_beam_azimuth,
        "rxaz": l.rx_beam_azimuth,
        "txdev": l.tx_dev,
        "rxdev": l.rx_dev,
        "txsecaz": l.tx_sector.ant_azimuth if l.tx_sector else None,
        "rxsecaz": l.rx_sector.ant_azimuth if l.rx_sector else None,
        "eldev": l.el_dev,
        "kind": l.link_type.name,
        "rxtype": l.rx_site.site_type.name,
        "pair": list(l.sorted_site_ids),
        "sortedpair": sorted([l.tx_site.site_id, l.rx_site.site_id]),
    }


def run(ctx):
    dn, cn = w.device(), w.device("CN_A", "CN")
    cases = []
    # construction of sites
    for t, (dt, d), lt, b in itertools.product(
        ["POP", "DN", "CN"], [("DN", dn), ("CN", cn)], ["ROOFTOP", "STREET_LEVEL", "UNKNOWN"], [None, -1, 0, 7]
    ):
        r = attempt(w.site, t, w.at(0, 0, 1.0), d, "CANDIDATE", "", b, None, lt)[0]
        cases.append({"kind0": "site", "type": t, "dtype": dt, "ltype": lt, "building": "none" if b is None else str(b), "res": res(r)})
    # construction of links
    for (tt, rt, ts, rs) in itertools.product(["POP", "DN", "CN"], ["POP", "DN", "CN"], ["none", "own", "other", "twin"], ["none", "own", "other", "twin"]):
        def mk():
            a = w.site(tt, w.at(0, 0, 1.0), cn if tt == "CN" else dn, "PROPOSED")
            b = w.site(rt, w.at(90, 0, 1.0), cn if rt == "CN" else dn, "PROPOSED")
            c = w.site("DN", w.at(0, 90, 1.0), dn, "PROPOSED")
            # "twin": an equal site that is a different object
            a2 = w.site(tt, w.at(0, 0, 1.0), cn if tt == "CN" else dn, "PROPOSED")
            b2 = w.site(rt, w.at(90, 0, 1.0), cn if rt == "CN" else dn, "PROPOSED")
            sec = lambda k, s, s2: None if k == "none" else w.Sector({"own": s, "other": c, "twin": s2}[k], 0, 0, 0.0)  # noqa: E731
            return w.Link(a, b, sec(ts, a, a2), sec(rs, b, b2))

        if "twin" in (ts, rs):
            continue  # whether an equal but distinct site object counts as the end is not promised
        cases.append({"kind0": "link", "txtype": tt, "txsec": ts, "rxsec": rs, "res": res(attempt(mk)[0])})
    # construction of places
    vals = [None, -180.001, -180.0, -90.001, -90.0, 0.0, 12.5, 90.0, 90.001, 180.0, 180.001]
    for la, lo in itertools.product(vals, vals):
        cases.append({"kind0": "place", "lat": la, "lon": lo, "x": None, "y": None, "epsg": -1,
                      "res": res(attempt(GeoLocation, latitude=la, longitude=lo)[0])})
    for x, y, e in itertools.product([None, 5e5], [None, 4e6], [None, 0, 32600, 32601, 32660, 32661, 32700, 32701, 32760, 32761]):
        cases.append({"kind0": "place", "lat": None, "lon": None, "x": x, "y": y, "epsg": -1 if e is None else e,
                      "res": res(attempt(GeoLocation, utm_x=x, utm_y=y, utm_epsg=e)[0])})
    # subscribers
    for t, g in itertools.product(["POP", "DN", "CN"], [None, 0, 1, 2, 9]):
        s = w.site(t, w.at(0, 0, 1.0), cn if t == "CN" else dn, subs=g)
        cases.append({"kind0": "subs", "type": t, "given": -1 if g is None else g, "got": s.number_of_subscribers})
    rng = ctx.sub("geo")
    for k in range(ctx.pick(300, 4000)):
        o = rand_loc(rng)
        # a place and its projection
        g = GeoLocation(latitude=o.latitude, longitude=o.longitude, altitude=o.altitude)
        h = GeoLocation(utm_x=g.utm_x, utm_y=g.utm_y, utm_epsg=g.utm_epsg, altitude=g.altitude)
        cases.append({"kind0": "placed", "lat": g.latitude, "lon": g.longitude, "epsg": g.utm_epsg, "lat2": h.latitude,
                      "lon2": h.longitude, "alt": g.altitude, "alt2": h.altitude})
        # a link and its reverse
        p = rand_loc(rng, o, 5.0)
        q = rand_loc(rng, o, rng.choice([20.0, 300.0, 3000.0]))
        if rng.random() < 0.06:
            q = GeoLocation(latitude=p.latitude, longitude=p.longitude, altitude=rng.choice([None, p.altitude, 99.0]))
        ta, tb = rng.choice(["POP", "DN"]), rng.choice(["POP", "DN", "CN"])
        a = w.site(ta, p, dn, "PROPOSED")
        b = w.site(tb, q, cn if tb == "CN" else dn, "PROPOSED")
        if a.site_id == b.site_id:
            continue
        sectored = rng.random() < 0.7
        az = lambda: rng.choice([0.0, 90.0, 180.0, 270.0, 359.999, rng.uniform(0, 360)])  # noqa: E731
        sa = w.Sector(a, 0, 0, az()) if sectored else None
        sb = w.Sector(b, 0, 0, az()) if sectored else None
        wl = rng.random() < 0.8
        l = w.Link(a, b, sa, sb, is_wireless=wl) if rng.random() < 0.6 or not sectored else w.Link(tx_sector=sa, rx_sector=sb, is_wireless=wl)
        cases.append(link_case(l))
        if sectored and rng.random() < 0.5:
            # a sector re-aimed after the link exists
            sa.ant_azimuth, sb.ant_azimuth = az(), az()
            cases.append(link_case(l))
        if tb != "CN":
            m = w.Link(b, a, sb, sa, is_wireless=wl)
            flat = abs(p.latitude - q.latitude) + abs(p.longitude - q.longitude) == 0
            cases.append({"kind0": "reverse", "d1": l.distance, "d2": m.distance, "e1": l.el_dev, "e2": m.el_dev,
                          "h1": l.link_hash, "h2": m.link_hash, "id1": l.link_id, "id2": m.link_id,
                          "az1": l.tx_beam_azimuth, "az2": m.tx_beam_azimuth, "convergence": 180.0 if flat else 0.5})
        # a triangle of three places
        t = rand_loc(rng, o, 300.0)
        if min(geos.haversine_distance(p.longitude, p.latitude, z.longitude, z.latitude) for z in (q, t)) > 1:
            ang, rat = geos.law_of_cosines_spherical(p.latitude, p.longitude, q.latitude, q.longitude, t.latitude, t.longitude)
            cases.append({"kind0": "triangle", "o": pt(p), "p": pt(q), "q": pt(t), "angle": float(ang), "ratio": float(rat)})
        be, di = rng.uniform(0, 360), rng.choice([1.0, 50.0, 2000.0, rng.uniform(1, 9000)])
        lon, lat = geos.translate_point(p.longitude, p.latitude, be, di)
        cases.append({"kind0": "translate", "p": pt(p), "q": {"lat": float(lat), "lon": float(lon), "alt": None}, "bearing": be, "dist": di})
        x, y = az(), az()
        cases.append({"kind0": "angle", "a": x, "b": y, "delta": float(geos.angle_delta(x, y))})
    # identity over families of sites that differ in one attribute
    for k in range(ctx.pick(12, 80)):
        rng = ctx.sub(f"id{k}")
        base = rand_loc(rng)
        skus = [w.device("S1"), w.device("S2"), w.device("s1")]
        fam = []
        for _ in range(25):
            loc = GeoLocation(
                latitude=base.latitude + rng.choice([0, 0, 1e-7]),
                longitude=base.longitude + rng.choice([0, 0, 1e-7]),
                altitude=rng.choice([base.altitude, None, 0.0, 1.5]),
            )
            t = rng.choice(["POP", "DN", "CN"])
            d = rng.choice(skus)
            if t == "CN":
                d = w.device(d.device_sku, "CN")
            s = w.site(t, loc, d, rng.choice(w.STATUS), rng.choice(["", "x", "y"]))
            fam.append({"id": s.site_id, "type": t, "lat": s.latitude, "lon": s.longitude, "alt": s.altitude, "sku": d.device_sku})
        cases.append({"kind0": "ids", "sites": fam})
    for c in cases:
        ctx.nontrivial(str(c))
    ctx.judge("Elements", cases, [c["kind0"] for c in cases])
