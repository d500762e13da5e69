"""F03: a network written as KML and read back (spec/RoundTrip.tla)."""
import os
import tempfile

from harness import nets
from harness import world as w
from harness.core import attempt
from terragraph_planner.common.data_io.topology_serializer import write_to_kml_file
from terragraph_planner.common.data_io.utils import extract_topology_from_file

LEVEL = "model_checking"
RULE = "a distinct network with at least one wireless link"
ASSUMPTIONS = [
    "links run both ways with one status (from a client only towards it); site names are unique",
    "all sites have an altitude or none has; all demand sites have a demand or none has",
]
NAMES = ["a", "B", "p & q", "<x>", "\"quoted\"", "it's", "007", "1.10", "né", "x-->y", "N/A", "None", "POP", "EXISTING", "a,b", "True", "]]>"]


def network(rng):
    lat0, lon0 = rng.choice([(37.48, -122.15), (-33.86, 151.2), (0.0, 0.0), (-12.05, -77.04), (64.1, -21.9)])
    devs = [w.device("DN & <1>"), w.device("dn_B"), w.device("CN_1", "CN"), w.device("cn 2", "CN")]
    flat = rng.random() < 0.3
    names = NAMES[:]
    rng.shuffle(names)
    sites, used = [], set()
    spots = [(rng.uniform(-400, 400), rng.uniform(-400, 400)) for _ in range(5)]
    for k in range(rng.randint(2, 8)):
        kind = rng.choice(["POP", "DN", "DN", "CN"])
        d = rng.choice(devs[2:] if kind == "CN" else devs[:2])
        spot = rng.randrange(5)
        if (kind, d.device_sku, spot) in used:
            continue
        used.add((kind, d.device_sku, spot))
        alt = None if flat else rng.choice([rng.uniform(-20, 900), 7.0, 1234.125])
        lt = rng.choice(["STREET_LEVEL", "ROOFTOP", "UNKNOWN"])
        sites.append(w.site(
            kind, w.at(*spots[spot], alt, lat0, lon0), d, rng.choice(w.STATUS if rng.random() < 0.5 else ["PROPOSED", "EXISTING", "CANDIDATE"]),
            names[k] if rng.random() < 0.8 else "", rng.choice([0, 5, -1]) if lt == "ROOFTOP" else None,
            rng.randint(1, 9) if kind == "CN" else None, lt))
    t = w.Topology(sites=sites)
    t.name = rng.choice(["topology", "North & South <1>", ""])
    for a in sites:
        for b in sites:
            if a.site_id >= b.site_id or rng.random() < 0.4:
                continue
            if abs(a.latitude - b.latitude) + abs(a.longitude - b.longitude) < 1e-6:
                continue
            st = nets.legal_link_status(a.status_type.name, b.status_type.name, rng, ("PROPOSED", "EXISTING", "CANDIDATE"))
            wl = rng.random() < 0.85
            conf = rng.choice([None, rng.random(), 1.0, 0.0])
            pairs = [(a, b), (b, a)]
            rng.shuffle(pairs)
            for x, y in pairs:
                if x.site_type.name != "CN":
                    k = w.Link(x, y, status_type=w.ST[st], is_wireless=wl, confidence_level=conf if rng.random() < 0.8 else rng.random())
                    t.add_link(k)
                    if rng.random() < 0.5:
                        k.capacity = rng.choice([0.0, 0.75, 1.8])
                        k.proposed_flow = rng.choice([0.0, k.capacity * 0.9])
    dem = rng.random() < 0.5
    for _ in range(rng.choice([0, 0, 1, 4])):
        d = w.DemandSite(location=w.at(rng.uniform(-400, 400), rng.uniform(-400, 400), None, lat0, lon0), connected_sites=rng.sample(sites, min(len(sites), rng.randint(0, 2))))
        if dem:
            d.demand = rng.choice([0.0, 0.025, 0.1])
        t.add_demand_site(d)
    return t, devs


def number(v, rel=None):
    return [] if v is None else [f"{float(v):.7f}"]


def project(t):
    sites = sorted(
        ({"id": s.site_id, "name": s.name, "type": s.site_type.name, "status": s.status_type.name, "ltype": s.location_type.name,
          "bld": -2 if s.building_id is None else int(s.building_id), "sku": s.device.device_sku,
          "subs": int(s.number_of_subscribers or 0), "pos": number(s.latitude) + number(s.longitude), "alt": number(s.altitude)} for s in t.sites.values()),
        key=lambda d: d["id"])
    links = sorted(
        ({"id": x.link_id, "tx": x.tx_site.site_id, "rx": x.rx_site.site_id, "type": x.link_type.name, "status": x.status_type.name,
          "conf": [] if x.confidence_level is None else [round(x.confidence_level * 1000)]} for x in t.links.values()),
        key=lambda d: d["id"])
    return {"ok": True, "sites": sites, "links": links, "demands": sorted(number(d.latitude) + number(d.longitude) for d in t.demand_sites.values())}


LOST = {"ok": False, "sites": [], "links": [], "demands": []}


def one(rng, _k):
    t, devs = network(rng)
    before = project(t)
    out = []
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "net.kml")

        def trip():
            write_to_kml_file(cur[0], path)
            cur[0] = extract_topology_from_file(path, devs, None)
            return project(cur[0])

        cur = [t]
        for _ in range(2):
            r, v = attempt(trip)
            out.append(v if r == "ok" else LOST)
            if r != "ok":
                out.append(LOST)
                break
    return {"sites": before["sites"], "links": before["links"], "demands": before["demands"], "first": out[0], "second": out[1]}


def run(ctx):
    cases = ctx.pmap(one, range(ctx.pick(1000, 9000)))
    for c in cases:
        if any(k["type"] != "ETHERNET" for k in c["links"]):
            ctx.nontrivial({"s": c["sites"], "l": c["links"]})
    ctx.notes["links"] = sum(len(c["links"]) for c in cases)
    ctx.judge("RoundTrip", cases, [f"net#{k}" for k in range(len(cases))])
