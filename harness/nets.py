"""Small networks: abstract records, random generation, real Topology objects.

An abstract network is {"site": {n: {type, status, pos, ...}},
"link": {id: {tx, rx, wireless, status, mcs, cap}}, "demand": {d: [sites]}}.
"""
import itertools

from harness import world as w
from harness.world import ST, DemandSite, Link, Topology

REACH = ("PROPOSED", "EXISTING", "CANDIDATE")
ACTIVE = ("PROPOSED", "EXISTING")


def legal_link_status(a, b, rng=None, prefer=None):
    ok = [
        s
        for s in w.STATUS
        if not (s == "EXISTING" and {a, b} != {"EXISTING"})
        and not ("UNAVAILABLE" in (a, b) and s != "UNAVAILABLE")
        and not ("UNREACHABLE" in (a, b) and s not in ("UNREACHABLE", "UNAVAILABLE"))
        and not ("CANDIDATE" in (a, b) and s in ACTIVE)
    ]
    if not ok:
        return None
    if prefer:
        for s in prefer:
            if s in ok and (rng is None or rng.random() < 0.75):
                return s
    return rng.choice(ok) if rng else ok[0]


class Real:
    """A real Topology built from an abstract network, with names both ways."""

    def __init__(self, net, order=None):
        self.net = net
        self.t = t = Topology()
        self.site, self.id = {}, {}
        self.dev = {}
        names = list(net["site"])
        if order:
            order.shuffle(names)
        for n in names:
            s = net["site"][n]
            sku = s.get("sku", "CN_A" if s["type"] == "CN" else "DN_A")
            d = self.dev.setdefault(sku, w.device(sku, "CN" if s["type"] == "CN" else "DN"))
            x, y = s["pos"]
            o = w.site(s["type"], w.at(x, y, s.get("alt", 5.0)), d, s["status"], n)
            self.site[n] = o
            self.id[n] = o.site_id
            t.add_site(o)
        self.link = {}
        lnames = list(net["link"])
        if order:
            order.shuffle(lnames)
        for l in lnames:
            v = net["link"][l]
            o = Link(self.site[v["tx"]], self.site[v["rx"]], status_type=ST[v["status"]], is_wireless=v["wireless"])
            if "mcs" in v:
                o.mcs_level = v["mcs"]
            o.capacity = float(v.get("cap", 1000.0))
            self.link[l] = o
            t.add_link(o)
        self.demand = {}
        for k, (d, sites) in enumerate(net["demand"].items()):
            o = DemandSite(location=w.at(9000 + 7 * k, 9000), connected_sites=[self.site[s] for s in sites])
            self.demand[d] = o
            self.id[d] = o.demand_id
            t.add_demand_site(o)
        self.name = {v: k for k, v in self.id.items()}
        self.lname = {o.link_id: l for l, o in self.link.items()}

    def nm(self, i):
        return self.name.get(i, "SRC" if i == "SUPERSOURCE" else f"?{i}")

    def ln(self, i):
        return self.lname.get(i, f"?{i}")

    def sites_status(self):
        return {n: o.status_type.name for n, o in self.site.items()}

    def links_status(self):
        return {n: o.status_type.name for n, o in self.link.items()}


def random_net(
    rng,
    pops=(1, 2),
    dns=(2, 4),
    cns=(0, 2),
    density=0.5,
    statuses=("CANDIDATE",),
    oneway=0.0,
    wired=0.1,
    demands=(1, 4),
    colocate=0.0,
    mcs=(0, 13),
    link_prefer=None,
    bias_active=False,
    chain=False,
):
    site = {}
    kinds = ["POP"] * rng.randint(*pops) + ["DN"] * rng.randint(*dns) + ["CN"] * rng.randint(*cns)
    cnt = {"POP": 0, "DN": 0, "CN": 0}
    pos = []
    for k in kinds:
        n = k[0].lower() + str(cnt[k])
        cnt[k] += 1
        if pos and rng.random() < colocate:
            p = rng.choice(pos)
            clash = [m for m in site if site[m]["pos"] == p and site[m]["type"] == k]
            sku = ("CN_" if k == "CN" else "DN_") + "ABCDEFG"[len(clash)]
        else:
            p = [round(rng.uniform(-300, 300), 1), round(rng.uniform(-300, 300), 1)]
            sku = ("CN_" if k == "CN" else "DN_") + "A"
            while p in pos:
                p[0] += 1.0
        pos.append(p)
        site[n] = {"type": k, "status": rng.choice(statuses), "pos": p, "sku": sku}
    link = {}
    names = list(site)
    row = sorted(names, key=lambda n: (site[n]["type"] == "CN", n[0] == "d" and int(n[1:]))) if chain else []
    next_to = set(map(frozenset, zip(row, row[1:])))
    for a, b in itertools.combinations(names, 2):
        if rng.random() > (0.96 if {a, b} in next_to else density):
            continue
        wl = rng.random() >= wired
        st = legal_link_status(site[a]["status"], site[b]["status"], rng, link_prefer)
        if st is None:
            continue
        dirs = [(a, b), (b, a)]
        dirs = [d for d in dirs if site[d[0]]["type"] != "CN"]
        if not dirs:
            continue
        if len(dirs) == 2 and rng.random() < oneway:
            dirs = [rng.choice(dirs)]
        m = rng.randint(*mcs)
        for i, (x, y) in enumerate(dirs):
            s2 = st if rng.random() < 0.9 else legal_link_status(site[a]["status"], site[b]["status"], rng, link_prefer)
            link[f"{x}>{y}"] = {
                "tx": x, "rx": y, "wireless": wl, "status": s2,
                "mcs": m if rng.random() < 0.6 else rng.randint(*mcs),
                "cap": 0 if rng.random() < 0.05 else rng.choice([300, 1000, 1800]),
            }
    demand = {}
    for k in range(rng.randint(*demands)):
        demand[f"q{k}"] = sorted(rng.sample(names, rng.randint(1, min(2, len(names)))))
    for n, s in site.items():
        if s["type"] == "CN" and rng.random() < 0.8:
            demand["q" + n] = [n]
    return {"site": site, "link": link, "demand": demand}


def all_nets(pairs, base_site, base_demand, statuses=None):
    """Every subset of undirected candidate connections over fixed sites."""
    for mask in range(2 ** len(pairs)):
        link = {}
        for i, (a, b, wl) in enumerate(pairs):
            if not (mask >> i) & 1:
                continue
            for x, y in ((a, b), (b, a)):
                if base_site[x]["type"] == "CN":
                    continue
                st = legal_link_status(base_site[x]["status"], base_site[y]["status"], None, ["EXISTING", "PROPOSED", "CANDIDATE"])
                if st:
                    link[f"{x}>{y}"] = {"tx": x, "rx": y, "wireless": wl, "status": st, "mcs": 9, "cap": 1000}
        yield {"site": base_site, "link": link, "demand": base_demand}
