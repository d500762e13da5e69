"""O02: re-aiming of sectors after planning (spec/Aim.tla)."""
from harness import world as w
from harness.core import attempt
from harness.drivers import s01
from harness.world import ST
from terragraph_planner.common.configuration.configs import OptimizerParams
from terragraph_planner.optimization import topology_operations as ops
from terragraph_planner.optimization import topology_preparation as tp

LEVEL = "model_checking"
RULE = "a distinct plan handed to the re-aiming step"
ACT = ("PROPOSED", "EXISTING")


def sid(x):
    return x.sector_id if x is not None else "none"


def plan(rng, t, params, multi):
    """Choose links of the prepared network that respect the limits."""
    from terragraph_planner.optimization.deployment_rules import find_angle_violating_link_pairs

    chosen, cn_used, load = set(), set(), {}
    pairs = {}
    for l in t.links.values():
        key = tuple(sorted((l.tx_site.site_id, l.rx_site.site_id)))
        pairs.setdefault(key, []).append(l)
    keys = sorted(pairs)
    rng.shuffle(keys)
    v = find_angle_violating_link_pairs(t, params.diff_sector_angle_limit, params.near_far_angle_limit, params.near_far_length_ratio, False)
    bad = {}
    for i, j, k in list(v.diff_sector_list) + list(v.near_far_list):
        bad.setdefault((i, j), set()).add((i, k))
        bad.setdefault((i, k), set()).add((i, j))
    dirs = set()
    for key in keys:
        ls = pairs[key]
        wl = ls[0].is_wireless
        if any(l.status_type.name in ("UNAVAILABLE", "UNREACHABLE") for l in ls):
            continue
        if any(s.status_type.name in ("UNAVAILABLE", "UNREACHABLE") for l in ls for s in (l.tx_site, l.rx_site)):
            continue
        forced = any(l.status_type.name in ACT for l in ls)
        cn = [l.rx_site.site_id for l in ls if l.rx_site.site_type.name == "CN"]
        if not cn and len(ls) < 2:
            continue
        if wl and any(l.tx_sector is None for l in ls):
            continue
        if not forced and (rng.random() > 0.8 or (cn and cn[0] in cn_used)):
            continue
        if wl and not forced:
            if any(bad.get((l.tx_site.site_id, l.rx_site.site_id), set()) & dirs for l in ls):
                continue
            if any(load.get(l.tx_sector.sector_id, [0, 0])[1] + 1 > params.dn_total_sector_limit
                   or (not cn and load.get(l.tx_sector.sector_id, [0, 0])[0] + 1 > params.dn_dn_sector_limit) for l in ls):
                continue
        if cn:
            cn_used.add(cn[0])
        for l in ls:
            dirs.add((l.tx_site.site_id, l.rx_site.site_id))
            chosen.add(l.link_id)
            if wl:
                q = load.setdefault(l.tx_sector.sector_id, [0, 0])
                q[0] += 0 if cn else 1
                q[1] += 1
    # apply: sites, whole nodes, links
    on = set()
    for i in chosen:
        l = t.links[i]
        for s in (l.tx_site, l.rx_site):
            if s.status_type.name == "CANDIDATE":
                s.status_type = ST.PROPOSED
        for x in (l.tx_sector, l.rx_sector):
            if x is not None:
                on.add((x.site.site_id, x.node_id))
    for x in t.sectors.values():
        if (x.site.site_id, x.node_id) in on and x.status_type.name == "CANDIDATE":
            x.status_type = ST.PROPOSED
    for i in chosen:
        if t.links[i].status_type.name == "CANDIDATE":
            t.links[i].status_type = ST.PROPOSED
    # channels: one per group of sectors connected by active links
    par = {k: k for k in t.sectors}

    def find(k):
        while par[k] != k:
            k = par[k]
        return k

    for i in chosen:
        l = t.links[i]
        if l.tx_sector is not None:
            par[find(l.tx_sector.sector_id)] = find(l.rx_sector.sector_id)
    ch = {}
    for k, x in t.sectors.items():
        if x.status_type.name in ACT:
            x.channel = ch.setdefault(find(k), rng.randint(0, 2) if multi else 0)
    return chosen


def snap_sec(t, nm):
    none = {"none": {**s01.NONE["none"], "channel": -1}}
    return {**none, **{k: {**s01.snap_sector(k, s, nm), "channel": s.channel} for k, s in t.sectors.items()}}


def aim_case(rng, k):
    sites, links = s01.star(rng)
    for s in sites.values():
        if s["status"] == "PROPOSED":
            s["status"] = "CANDIDATE"
        # large products of sectors make the search for layouts slow
        if s["type"] != "CN" and s["n"] > 2:
            s["n"], s["nodes"] = 2, 2
    for v in links.values():
        a, b = sites[v["tx"]]["status"], sites[v["rx"]]["status"]
        if v["status"] == "PROPOSED" or (v["status"] == "EXISTING" and {a, b} != {"EXISTING"}):
            v["status"] = "CANDIDATE"
    for l, v in links.items():
        r = f"{v['rx']}>{v['tx']}"
        if r in links:
            links[r]["status"] = v["status"]
    if not links:
        return None
    st, v = attempt(s01.build, rng, sites, links, 0.0)
    if st != "ok":
        return None
    t, obj, nm, lobj = v
    st, e = attempt(tp.setup_node_structure, t, seconds=60)
    if st != "ok":
        return None
    multi = k % 3 == 0
    p = OptimizerParams(device_list=[w.device("DN_A", "DN"), w.device("CN_A", "CN")])
    p.dn_dn_sector_limit = rng.choice([1, 2, 2, 3])
    p.dn_total_sector_limit = rng.choice([2, 3, 15]) + p.dn_dn_sector_limit - 1
    p.diff_sector_angle_limit = rng.choice([25.0, 25.0, 0.0, 45.0])
    p.near_far_angle_limit = 45.0
    p.near_far_length_ratio = 3.0
    free = not multi and k % 3 == 1
    if free:
        p.diff_sector_angle_limit, p.near_far_angle_limit, p.near_far_length_ratio = 0.0, 0.0, 1000.0
        p.dn_dn_sector_limit, p.dn_total_sector_limit = rng.choice([(2, 15), (3, 4), (8, 15)])
    chosen = plan(rng, t, p, multi)
    legal = all(o.status_type.name not in ACT or o.link_id in chosen for o in lobj.values())
    if not any(lobj[l].is_wireless and lobj[l].link_id in chosen for l in lobj):
        return None
    c = {
        "site": {n: {"type": s["type"], "lat": float(obj[n].latitude), "lon": float(obj[n].longitude), "alt": 5.0, "status": obj[n].status_type.name, "w": float(s["w"]), "n": s["n"], "nodes": s["nodes"]} for n, s in sites.items()},
        "link": {l: {**v2, "status": lobj[l].status_type.name, "ts": sid(lobj[l].tx_sector), "rs": sid(lobj[l].rx_sector), "chan": lobj[l].link_channel} for l, v2 in links.items()},
        "given": snap_sec(t, nm),
        "multi": multi, "free": free, "dn_limit": p.dn_dn_sector_limit, "total_limit": p.dn_total_sector_limit,
    }
    # what already exists may break the rules: a CN with two links, a sector over its limits
    on = [o for o in lobj.values() if o.is_wireless and o.status_type.name in ACT]
    ends = [(o.rx_site.site_id, o.tx_site.site_id) for o in on if o.rx_site.site_type.name == "CN"]
    twice = len({e[0] for e in ends}) < len(set(ends))
    over = False
    for x in t.sectors.values():
        mine = [o for o in on if o.tx_sector is x]
        over = over or len(mine) > p.dn_total_sector_limit or sum(1 for o in mine if o.rx_site.site_type.name != "CN") > p.dn_dn_sector_limit
    st, e = attempt(ops.readjust_sectors_post_opt, t, p, seconds=120)
    if st == "OptimizerException":
        return {"kind": "refused", "may": twice or over or not legal, "text": e, **c}
    if st != "ok":
        return {"kind": "crash", "what": "readjust_sectors_post_opt", "text": f"{st}: {e}", **c}
    return {
        "kind": "aim", **c, "sec": snap_sec(t, nm),
        "out": {l: {"ts": sid(o.tx_sector), "rs": sid(o.rx_sector), "chan": o.link_channel, "status": o.status_type.name} for l, o in lobj.items()},
        "sstat": {n: o.status_type.name for n, o in obj.items()},
    }


def run(ctx):
    cases = [c for c in ctx.pmap(aim_case, range(ctx.pick(420, 6000))) if c]
    for c in cases:
        ctx.nontrivial({k: c.get(k) for k in ("site", "link", "given")})
    ctx.notes["cases"] = {k: sum(1 for c in cases if c["kind"] == k) for k in ("aim", "refused", "crash")}
    ctx.judge("Aim", cases, [f"{c['kind']}#{k}" for k, c in enumerate(cases)])
