"""P03: acceptance of consistent statuses (spec/Consistency.tla)."""
import itertools

from harness import world as w
from harness.core import attempt
from harness.world import ST, Link, Sector, Topology
from terragraph_planner.optimization.topology_preparation import validate_topology_status

LEVEL = "model_checking"
RULE = "a distinct combination of statuses of sites, sectors and both directions of a link"
S5 = w.STATUS
MUT = ["PROPOSED", "CANDIDATE", "UNREACHABLE"]


def build(kind_b, a, b, sa, sb, ab, ba, wireless, secs, late):
    """Build with the first statuses, then move the sites to the late ones."""
    t = Topology()
    A = w.site("DN", w.at(0, 0, 5.0), w.device("DN_A", "DN"), a, "A")
    B = w.site(kind_b, w.at(100, 0, 5.0), w.device("CN_A" if kind_b == "CN" else "DN_A", "CN" if kind_b == "CN" else "DN"), b, "B")
    t.add_site(A)
    t.add_site(B)
    x = y = None
    if sa:
        x = Sector(A, 0, 0, 90.0, status_type=ST[sa])
        t.add_sector(x)
    if sb:
        y = Sector(B, 0, 0, 270.0, status_type=ST[sb])
        t.add_sector(y)
    for s, d, st, p, q in ((A, B, ab, x, y), (B, A, ba, y, x)):
        if st is None:
            continue
        if secs and wireless and x is not None and y is not None:
            t.add_link(Link(s, d, tx_sector=p, rx_sector=q, status_type=ST[st], is_wireless=wireless))
        else:
            t.add_link(Link(s, d, status_type=ST[st], is_wireless=wireless))
    for o, n in ((A, late[0]), (B, late[1])):
        if n and o.status_type.name != n:
            o.status_type = ST[n]
    return t, {A.site_id: "A", B.site_id: "B"}


def record(t, nm):
    sec = {k: {"site": nm[s.site.site_id], "status": s.status_type.name} for k, s in t.sectors.items()}
    sid = {k: f"S{nm[s.site.site_id]}" for k, s in t.sectors.items()}
    return {
        "site": {nm[i]: {"type": s.site_type.name, "status": s.status_type.name} for i, s in t.sites.items()},
        "sec": {sid[k]: v for k, v in sec.items()} or {"none": {"site": "A", "status": "CANDIDATE"}},
        "link": {
            nm[l.tx_site.site_id] + nm[l.rx_site.site_id]: {
                "tx": nm[l.tx_site.site_id], "rx": nm[l.rx_site.site_id], "wireless": l.is_wireless, "status": l.status_type.name,
                "ts": sid[l.tx_sector.sector_id] if l.tx_sector else "none", "rs": sid[l.rx_sector.sector_id] if l.rx_sector else "none",
            }
            for l in t.links.values()
        },
    }


def run(ctx):
    cases, seen = [], set()

    def one(*a):
        st, v = attempt(build, *a)
        if st != "ok":
            return
        t, nm = v
        r = record(t, nm)
        if not r["link"] or str(r) in seen:
            return
        seen.add(str(r))
        st, v = attempt(validate_topology_status, t)
        if st not in ("ok", "TopologyException"):
            cases.append({"kind": "crash", "what": "validate_topology_status", "text": f"{st}: {v}", **r})
            return
        cases.append({"kind": "check", "accepted": st == "ok", "same": record(t, nm) == r, **r})
        ctx.nontrivial(str(r))

    rng = ctx.sub("mix")
    full = list(itertools.product(S5, S5, [None] + S5, [None] + S5, [None] + S5, [None] + S5))
    rng.shuffle(full)
    # equal directions are the interesting half: keep them likely
    n = ctx.pick(6000, len(full))
    for a, b, sa, sb, ab, ba in full[: 3 * n]:
        if rng.random() < 0.6:
            ba = ab
        kind = rng.choice(["DN", "DN", "POP", "CN"])
        wl = rng.random() < 0.85
        late = [rng.choice([None] + MUT) if s in MUT else None for s in (a, b)]
        one(kind, a, b, sa, sb, ab, None if kind == "CN" else ba, wl, rng.random() < 0.9, late if rng.random() < 0.5 else (None, None))
    # all consistent-by-construction combinations with equal directions
    for a, b, sa, sb, ab in itertools.product(S5, S5, [None] + S5, [None] + S5, S5):
        for late in ((None, None), ("CANDIDATE", None), ("UNREACHABLE", None), (None, "CANDIDATE"), (None, "PROPOSED"), (None, "UNREACHABLE")):
            if any(l and s not in MUT for l, s in zip(late, (a, b))):
                continue
            one("DN", a, b, sa, sb, ab, ab, True, True, late)
        one("CN", a, b, sa, sb, ab, None, True, True, (None, None))
    ctx.judge("Consistency", cases, ["statuses"] * len(cases))
    ctx.notes["accepted"] = sum(1 for c in cases if c.get("accepted"))
