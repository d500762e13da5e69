"""T01: the network store under edit histories (spec/TopologyStore.tla)."""
import json
import os
import tempfile
from collections import defaultdict, deque

from harness import store, tlc

LEVEL = "model_checking"
RULE = "a store content reached (sites, sectors, links with their sector pairs, demands) distinct from the others"


def canon(x):
    if isinstance(x, dict):
        return {k: canon(v) for k, v in sorted(x.items())}
    if isinstance(x, list):
        return sorted((canon(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True))
    return x


def key(x):
    return json.dumps(x, sort_keys=True)


def skey(s):
    """State printed by TLC -> hashable."""
    l = s["links"]
    return key([sorted(s["sites"]), sorted(s["sectors"]), sorted(s["demands"]), sorted((k, *v) for k, v in (l.items() if isinstance(l, dict) else []))])


TUPLES = {"links", "between", "reverse", "sconn", "sconnrev", "onsite"}


def vkey(v):
    """Views are records of sets: compare up to order of the sets."""
    out = {}
    for f, x in v.items():
        if isinstance(x, dict):
            out[f] = {k: sorted(map(key, y)) for k, y in x.items()}
        elif f == "onsite":
            out[f] = sorted(key([p[0], sorted(p[1])]) for p in x)
        elif f == "colocated":
            out[f] = sorted(key(sorted(p)) for p in x)
        else:
            out[f] = sorted(map(key, x))
    return out


def explore(ctx, u):
    fd, path = tempfile.mkstemp()
    os.close(fd)
    try:
        with open(path, "w") as f:
            f.write(json.dumps(u.spec()) + "\n")
        os.environ["VERIF_UNIVERSE"] = path
        rc, es, dist, gen, rest = tlc.edges(
            None, "TopologyStoreMC", "INIT Init\nNEXT Next\nINVARIANT Soundness\nINVARIANT Show\nCHECK_DEADLOCK FALSE\n"
        )
    finally:
        os.unlink(path)
    if rc != 0:
        raise tlc.TlcError(rest)
    ctx.model(dist, gen, "TopologyStoreMC")
    views, out = {}, defaultdict(list)
    for e in es:
        if e["k"] == "S":
            views[skey(e["s"])] = vkey(e["v"])
        else:
            out[skey(e["f"])].append((e["op"], e["ok"], skey(e["t"])))
    return views, out


def check(ctx, s, op, ok, want, hist, where):
    res = s.do(op)
    ctx.evals += 1
    bad = []
    if res != ("ok" if ok else "refused"):
        bad.append(op["op"] + "_outcome")
    else:
        got = vkey(s.view())
        bad = ["view_" + f for f in want if want[f] != got[f]]
    if bad:
        ctx.fail(where, bad, {"universe": "small", "history": hist + [op], "result": res})
    return not bad


def run(ctx):
    u = store.small()
    views, out = explore(ctx, u)
    init = skey({"sites": [], "sectors": [], "links": {}, "demands": []})
    path = {init: []}
    q = deque([init])
    while q:
        s = q.popleft()
        for op, ok, t in out[s]:
            if t not in path:
                path[t] = path[s] + [op]
                q.append(t)
    for s in views:
        ctx.nontrivial(s)
    # every transition of the model, taken from a shortest history
    rng = ctx.sub("edges")
    n = 0
    states = list(path)
    cap = ctx.pick(6000, 10**9)
    todo = [(s, e) for s in states for e in out[s]]
    if len(todo) > cap:
        # rejected edits matter as much as accepted ones: keep a balanced sample
        rng.shuffle(todo)
        todo = todo[:cap]
    for s, (op, ok, t) in todo:
        if len(ctx.failures) > 20:
            return
        st = store.Store(u)
        for o in path[s]:
            st.do(o)
        check(ctx, st, op, ok, views[t], path[s], "transition")
        n += 1
    ctx.traces += n
    ctx.notes["transitions_replayed"] = [n, sum(len(v) for v in out.values())]
    # long walks in one store: stale indexes show up only after removals
    for k in range(ctx.pick(6, 40)):
        rng = ctx.sub(f"walk{k}")
        st, s, hist = store.Store(u), init, []
        for _ in range(ctx.pick(600, 3000)):
            es = out[s]
            live = [e for e in es if e[1] and (e[0]["op"].startswith("Add") or rng.random() < 0.5)]
            op, ok, t = rng.choice(live if live and rng.random() < 0.8 else es)
            if not check(ctx, st, op, ok, views[t], hist[-40:], f"walk"):
                break
            hist.append(op)
            s = t
        ctx.traces += 1
    # recorded histories over a larger universe, judged by TLC
    U = store.large()
    spec = U.spec()
    cases = []
    for k in range(ctx.pick(24, 160)):
        rng = ctx.sub(f"hist{k}")
        st, steps = store.Store(U), []
        rem = rng.choice([0.1, 0.3, 0.5])
        for _ in range(ctx.pick(40, 60)):
            op = pick_op(rng, U, st, rem)
            res = st.do(op)
            steps.append({"op": op, "res": res, "view": st.view()})
        cases.append({"u": spec, "steps": steps})
        ctx.nontrivial(key(steps[-1]["view"]["links"]))
    ctx.judge("TopologyStore", cases, ["history"] * len(cases))
    ctx.samples = [{"history": [s["op"] for s in c["steps"]]} for c in cases[:3]]


def pick_op(rng, U, st, rem):
    t = st.t
    have_s = [n for n in U.sites if U.site_id[n] in t.sites]
    have_k = [n for n in U.sectors if U.sector_id[n] in t.sectors]
    have_l = [n for n in U.links if U.link_id[n] in t.links]
    if rng.random() < 0.1:  # anything, often refused
        o = rng.choice(["AddSite", "RemoveSite", "AddSector", "RemoveSector", "RemoveLink", "RemoveDemand", "AddDemand", "Sort"])
        x = rng.choice(list({"S": U.sites, "L": U.links, "D": U.demands, "C": U.sectors, "t": ["-"]}[
            "S" if "Site" in o else "L" if "Link" in o else "D" if "Demand" in o else "C" if "Sector" in o else "t"
        ]))
        return {"op": o, "x": x}
    if rng.random() < rem and have_s:
        o = rng.choice(["RemoveSite", "RemoveSector", "RemoveLink", "RemoveLink"])
        pool = {"RemoveSite": have_s, "RemoveSector": have_k, "RemoveLink": have_l}[o]
        if pool:
            return {"op": o, "x": rng.choice(pool)}
    miss_s = [n for n in U.sites if n not in have_s]
    if miss_s and (rng.random() < 0.3 or len(have_s) < 3):
        return {"op": "AddSite", "x": rng.choice(miss_s)}
    miss_k = [n for n in U.sectors if n not in have_k and U.sectors[n][0] in have_s]
    if miss_k and rng.random() < 0.4:
        return {"op": "AddSector", "x": rng.choice(miss_k)}
    free = [n for n in U.links if n not in have_l]
    ends = [n for n in free if U.links[n][0] in have_s and U.links[n][1] in have_s]
    sect = [x for x in U.sectored if x[0] in ends and x[1] in have_k and x[2] in have_k]
    if sect and rng.random() < 0.6:
        l, a, b = rng.choice(sect)
        return {"op": "AddLink", "x": l, "a": a, "b": b}
    l = rng.choice(ends if ends and rng.random() < 0.9 else free or list(U.links))
    if l in have_l:
        return {"op": "RemoveLink", "x": l}
    return {"op": "AddLink", "x": l, "a": "-", "b": "-", "by_id": rng.random() < 0.5}
