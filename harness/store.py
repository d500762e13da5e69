"""Real network store driven by named operations (T01)."""
from harness import world as w
from harness.core import attempt
from harness.world import ST, Link, LinkTypeName, PolarityType, Sector, SiteType, Topology, LinkType  # noqa


class Universe:
    """Named sites, sectors, links and demand points that may be added."""

    def __init__(self, sites, sectors, links, demands, sectored=()):
        # sites: name -> (type, status, (x, y), sku, polarity)
        # sectors: name -> (site, node, pos, status); links: name -> (tx, rx, wireless, status)
        self.sites, self.sectors, self.links, self.demands = sites, sectors, links, demands
        self.sectored = list(sectored)
        self.site_id = {}
        for n in sites:
            self.site_id[n] = self.mk_site(n).site_id
        self.name = {v: k for k, v in self.site_id.items()}
        self.link_id = {n: f"{self.site_id[l[0]]}-{self.site_id[l[1]]}" for n, l in links.items()}
        self.link_name = {v: k for k, v in self.link_id.items()}
        self.sector_id = {}
        for n, (s, node, pos, _st) in sectors.items():
            self.sector_id[n] = w.Sector(self.mk_site(s), node, pos, 0.0, ST[sectors[n][3]]).sector_id
        self.sector_name = {v: k for k, v in self.sector_id.items()}
        self.demand_id = {d: self.mk_demand(d).demand_id for d in demands}
        self.demand_name = {v: k for k, v in self.demand_id.items()}

    def mk_site(self, n):
        t, st, (x, y), sku, pol = self.sites[n]
        s = w.site(t, w.at(x, y, 10.0), w.device(sku, "CN" if t == "CN" else "DN"), st, n)
        s.polarity = w.PolarityType[pol]
        return s

    def mk_demand(self, d):
        return w.DemandSite(location=w.at(5000 + 10 * self.demands.index(d), 0))

    def spec(self):
        return {
            "site": {
                n: {"type": t, "status": st, "pos": list(p), "polarity": pol}
                for n, (t, st, p, _sku, pol) in self.sites.items()
            },
            "sector": {n: {"site": s[0], "status": s[3]} for n, s in self.sectors.items()},
            "link": {
                n: {"tx": l[0], "rx": l[1], "wireless": l[2], "status": l[3]} for n, l in self.links.items()
            },
            "demand": list(self.demands),
            "sectored": [list(x) for x in self.sectored],
        }


class Store:
    def __init__(self, u):
        self.u = u
        self.t = Topology()

    def cur(self, n):
        return self.t.sites.get(self.u.site_id[n]) or self.u.mk_site(n)

    def cur_sector(self, n):
        sid = self.u.sector_id[n]
        if sid in self.t.sectors:
            return self.t.sectors[sid]
        s = self.u.sectors[n]
        return Sector(self.cur(s[0]), s[1], s[2], 0.0, ST[s[3]])

    def do(self, op):
        r, val = attempt(self._do, op)
        if r == "ok":
            return "ok"
        import terragraph_planner.common.exceptions as ex

        cls = getattr(ex, r, None)
        if cls is not None and issubclass(cls, ex.PlannerException):
            return "refused"
        return f"crash {r}: {val}"

    def _do(self, op):
        t, u, x = self.t, self.u, op["x"]
        o = op["op"]
        if o == "AddSite":
            t.add_site(u.mk_site(x))
        elif o == "RemoveSite":
            t.remove_site(u.site_id[x])
        elif o == "AddSector":
            s = u.sectors[x]
            t.add_sector(Sector(self.cur(s[0]), s[1], s[2], 0.0, ST[s[3]]))
        elif o == "RemoveSector":
            t.remove_sector(u.sector_id[x])
        elif o == "AddLink":
            tx, rx, wireless, st = u.links[x]
            a, b = op.get("a", "-"), op.get("b", "-")
            kw = dict(status_type=ST[st], is_wireless=wireless)
            if a != "-":
                l = Link(tx_sector=self.cur_sector(a), rx_sector=self.cur_sector(b), **kw)
                t.add_link(l)
            elif op.get("by_id"):
                t.add_link_from_site_ids(u.site_id[tx], u.site_id[rx], **kw)
            else:
                t.add_link(Link(self.cur(tx), self.cur(rx), **kw))
        elif o == "RemoveLink":
            t.remove_link(u.link_id[x])
        elif o == "AddDemand":
            t.add_demand_site(u.mk_demand(x))
        elif o == "RemoveDemand":
            t.remove_demand_site(u.demand_id[x])
        elif o == "Sort":
            t.sort()
        else:
            raise AssertionError(o)

    def view(self):
        u, t = self.u, self.t
        nm = lambda i: u.name.get(i, f"?{i}")  # noqa: E731
        sn = lambda i: u.sector_name.get(i, f"?{i}")  # noqa: E731
        ln = lambda i: u.link_name.get(i, f"?{i}")  # noqa: E731

        def ask(f, *a):
            r, v = attempt(f, *a)
            if r == "ok":
                return v
            return "refused" if r.endswith("TopologyException") or r == "PlannerException" else f"crash {r}"

        def neigh(f):
            out = {}
            for n in u.sites:
                if u.site_id[n] in t.sites:
                    v = ask(f, t.sites[u.site_id[n]])
                else:
                    v = ask(f, u.mk_site(n))
                out[n] = sorted(nm(s.site_id) for s in v) if isinstance(v, list) else [v]
            return out

        def lname(v):
            if v is None:
                return "none"
            return v if isinstance(v, str) else ln(v.link_id)

        def pairs(v):
            return sorted([nm(a), nm(b)] for a, b in v) if not isinstance(v, str) else [v]

        S = list(u.sites)
        sconn = sorted([sn(a), sn(b), ln(l)] for a, m in t.sector_connectivity.items() for b, l in m.items())
        srev = sorted([sn(a), sn(b), ln(l)] for a, m in t.sector_connectivity_reverse.items() for b, l in m.items())
        links = []
        for l in t.links.values():
            a = sn(l.tx_sector.sector_id) if l.tx_sector is not None else "-"
            b = sn(l.rx_sector.sector_id) if l.rx_sector is not None else "-"
            links.append([ln(l.link_id), a, b])
        pol = t.get_site_polarities()
        onsite = getattr(t, "site_id_to_sector_ids", None)
        if onsite is None:
            onsite = {}
            for x in t.sectors.values():
                onsite.setdefault(x.site.site_id, set()).add(x.sector_id)
        return {
            "sites": sorted(map(nm, t.sites)),
            "sectors": sorted(map(sn, t.sectors)),
            "links": sorted(links),
            "demands": sorted(u.demand_name.get(d, "?") for d in t.demand_sites),
            "succ": neigh(t.get_successor_sites),
            "pred": neigh(t.get_predecessor_sites),
            "wsucc": neigh(t.get_wireless_successor_sites),
            "wpred": neigh(t.get_wireless_predecessor_sites),
            "between": [
                [a, b, lname(ask(t.get_link_by_site_ids, u.site_id[a], u.site_id[b]))] for a in S for b in S
            ],
            "bysector": [
                [a, b, lname(ask(t.get_link_by_sector_ids, u.sector_id[a], u.sector_id[b]))]
                for a in u.sectors
                for b in u.sectors
            ],
            "reverse": sorted([ln(l.link_id), lname(ask(t.get_reverse_link, l))] for l in t.links.values()),
            "sconn": sconn,
            "sconnrev": srev,
            "sectorless": pairs(t.get_sectorless_links()),
            "onsite": sorted([nm(s), sorted(sn(x) for x in onsite.get(s, ()))] for s in t.sites),
            "bystatus": {s: sorted(nm(i) for i in t.get_site_ids(status_filter={ST[s]})) for s in w.STATUS},
            "bytype": {
                k: sorted(nm(i) for i in t.get_site_ids(site_type_filter={SiteType[k]})) for k in ("POP", "DN", "CN")
            },
            "lbystatus": {s: pairs(t.get_link_site_id_pairs(status_filter={ST[s]})) for s in w.STATUS},
            "lbykind": {
                k: pairs(t.get_link_site_id_pairs(link_type_filter={LinkType[k]})) for k in LinkTypeName
            },
            "sbystatus": {
                s: sorted([nm(i), sn(x)] for i, xs in t.get_sector_ids({ST[s]}).items() for x in xs)
                for s in w.STATUS
            },
            "colocated": sorted(sorted(nm(i) for i in g) for g in t.get_colocated_sites().values()),
            "odd": sorted(nm(i) for i in pol[w.PolarityType.ODD]),
            "even": sorted(nm(i) for i in pol[w.PolarityType.EVEN]),
        }


def small():
    return Universe(
        sites={
            "A": ("POP", "EXISTING", (0, 0), "D1", "ODD"),
            "B": ("DN", "PROPOSED", (120, 0), "D1", "EVEN"),
            "C": ("CN", "CANDIDATE", (120, 90), "C1", "UNASSIGNED"),
        },
        sectors={
            "A0": ("A", 0, 0, "EXISTING"),
            "A1": ("A", 0, 1, "CANDIDATE"),
            "B0": ("B", 0, 0, "PROPOSED"),
            "C0": ("C", 0, 0, "CANDIDATE"),
        },
        links={
            "AB": ("A", "B", True, "PROPOSED"),
            "BA": ("B", "A", True, "CANDIDATE"),
            "BC": ("B", "C", True, "CANDIDATE"),
            "AC": ("A", "C", False, "CANDIDATE"),
        },
        demands=["d"],
        sectored=[("AB", "A0", "B0"), ("AB", "A1", "B0"), ("BA", "B0", "A0"), ("BC", "B0", "C0")],
    )


def large():
    sites = {
        "A": ("POP", "EXISTING", (0, 0), "D1", "ODD"),
        "B": ("DN", "EXISTING", (120, 0), "D1", "EVEN"),
        "C": ("CN", "CANDIDATE", (120, 90), "C1", "UNASSIGNED"),
        "D": ("DN", "PROPOSED", (120, 0), "D2", "UNASSIGNED"),  # colocated with B
        "E": ("DN", "UNAVAILABLE", (200, 50), "D1", "EVEN"),
        "F": ("POP", "CANDIDATE", (0, 0), "D2", "ODD"),  # colocated with A
        "G": ("CN", "UNREACHABLE", (300, 50), "C1", "ODD"),
    }
    st = {k: v[1] for k, v in sites.items()}
    sectors, links, sectored = {}, {}, []
    for n in sites:
        s = st[n]
        sectors[n + "0"] = (n, 0, 0, s)
        if sites[n][0] != "CN":
            sectors[n + "1"] = (n, 0, 1, "CANDIDATE" if s in ("EXISTING", "PROPOSED") else s)
    kind = {"BD": False, "DB": False, "AF": False, "BE": True}
    for a in sites:
        for b in sites:
            if a == b or sites[a][0] == "CN":
                continue
            e = {st[a], st[b]}
            if "UNAVAILABLE" in e and "UNREACHABLE" in e:
                continue
            l = (
                "UNAVAILABLE"
                if "UNAVAILABLE" in e
                else "UNREACHABLE"
                if "UNREACHABLE" in e
                else "CANDIDATE"
                if "CANDIDATE" in e
                else "EXISTING"
                if e == {"EXISTING"}
                else "PROPOSED"
            )
            links[a + b] = (a, b, kind.get(a + b, True), l)
            if links[a + b][2]:
                for x in (a + "0", a + "1"):
                    sectored.append((a + b, x, b + "0"))
    return Universe(sites, sectors, links, ["d", "e"], sectored)
