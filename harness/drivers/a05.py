"""A05: availability under scripted outage schedules (spec/Availability.tla)."""
import time

import numpy as np

from harness import graphs, nets
from harness.core import attempt
from terragraph_planner.optimization import topology_availability as ta

LEVEL = "model_checking"
RULE = "a distinct network with a distinct schedule of failures and repairs"
ASSUMPTIONS = [
    "outage and repair times are injected by scripting numpy's generator; whether numpy draws exponential variates is not examined",
]


class Draws:
    """A random generator whose exponential variates follow a script."""

    def __init__(self, rng, L, small):
        self.rng, self.L = rng, L
        self.small = small
        self.log = []

    def exponential(self, scale=1.0, size=None):
        v = 0 if scale == 0 else self.rng.randint(1, self.small)
        self.log.append((float(scale), v))
        return float(v)

    def schedules(self):
        """Per hop the <<up, down>> periods: draws alternate from time 0."""
        out, cur, t, means = [], [], 0, set()
        for k in range(0, len(self.log) - 1, 2):
            (mu, u), (md, d) = self.log[k], self.log[k + 1]
            means.add((mu, md))
            cur.append([u, d])
            t += u + d
            if t >= self.L:
                out.append(cur)
                cur, t = [], 0
        return out, sorted(list(m) for m in means)


class Clock:
    def __init__(self):
        self.t = 0.0

    def __call__(self):
        self.t += 1.0
        return self.t


def uptime(s, L):
    t = up = 0
    for u, d in s:
        up += max(0, min(L, t + u) - t)
        t += u + d
        if t >= L:
            break
    return up


def one(net, r, g, rng, L, small, avail, limit):
    """One scripted run, or None when the schedules cannot be told apart."""
    d = Draws(rng, L, small)
    before = graphs.snap(g)
    old, oldt = np.random.default_rng, time.time
    np.random.default_rng = lambda *a, **k: d
    if limit is not None:
        time.time = Clock()
    try:
        st, v = attempt(ta.compute_availability, g, avail, float(L), limit, None)
    finally:
        np.random.default_rng, time.time = old, oldt
    if st != "ok":
        return graphs.crash("compute_availability", net, f"{st}: {v}")
    sched, means = d.schedules()
    ups = [uptime(s, L) for s in sched]
    if limit is None and len(set(ups)) < len(ups):
        return None
    if limit is not None and len(sched) > 1:
        for t in range(1, L + 1):
            us = [uptime(s, t) for s in sched]
            # schedules seen alike up to t are fine, they are interchangeable
            # only when they really coincide
            for i in range(len(us)):
                for j in range(i):
                    if us[i] == us[j] and [uptime(sched[i], x) for x in range(t + 1)] != [uptime(sched[j], x) for x in range(t + 1)]:
                        return None
    return {
        "kind": "sim", "net": net, "L": L, "avail": float(avail), "sched": sched, "means": [list(m) for m in means],
        "limited": limit is not None, "unchanged": before == graphs.snap(g),
        "dem": [{"d": r.nm(k), "a": float(a)} for k, a in sorted(v[0].items())],
        "links": [{"u": r.nm(a), "v": r.nm(b), "a": float(x)} for (a, b), x in sorted(v[1].items())],
    }


def run(ctx):
    cases, keys = [], []

    def add(c, key):
        if c is not None:
            cases.append(c)
            keys.append(key)

    todo = graphs.small_nets(ctx, ctx.pick(500, 6000), "n", oneway=0.0, dns=(1, 4), mcs=(3, 12))
    dropped = 0
    for i, (net, r) in enumerate(todo):
        g = graphs.active_graph(r)
        rng = ctx.sub(f"s{i}")
        # a connection of a CN is an access link; two DNs need both directions
        bh = {(l["tx"], l["rx"]) for l in net["link"].values() if l["wireless"] and net["site"][l["rx"]]["type"] != "CN"
              and l["status"] in nets.ACTIVE and net["site"][l["tx"]]["status"] in nets.ACTIVE and net["site"][l["rx"]]["status"] in nets.ACTIVE}
        must = any((b, a) not in bh for a, b in bh)
        avail = rng.choice([10.0, 75.0, 90.0, 99.5])
        if must:
            st, v = attempt(ta.compute_availability, g, avail, 1.0, None, 3)
            add({"kind": "refuse", "refused": st == "OptimizerException", "must": True, "net": net}, "one_way_backhaul")
            continue
        for k in range(2):
            L = rng.choice([6, 12, 20])
            c = one(net, r, g, rng, L, rng.choice([3, 6, 15]), avail, None)
            if c is None:
                dropped += 1
            else:
                add(c, "schedule")
                ctx.nontrivial(str((net, c.get("sched"))))
        if i % 4 == 0:
            add(one(net, r, g, rng, 16, 15, avail, float(rng.randint(0, 6))), "time_limit")
        if i % 10 == 0:
            a, b = (attempt(ta.compute_availability, g, 90.0, 30.0, None, 11) for _ in range(2))
            add({"kind": "same", "same": a == b and a[0] == "ok"}, "seed")
            for av in (0.0, 100.0):
                st, v = attempt(ta.compute_availability, g, av, 10.0, None, 5)
                if st != "ok":
                    add(graphs.crash(f"availability_{int(av)}", net, f"{st}: {v}"), "constant")
                else:
                    add({"kind": "const", "avail": av, "net": net,
                         "dem": [{"d": r.nm(x), "a": float(y)} for x, y in sorted(v[0].items())],
                         "links": [{"u": r.nm(x[0]), "v": r.nm(x[1]), "a": float(y)} for x, y in sorted(v[1].items())]}, "constant")
    net, r = todo[0]
    g = graphs.active_graph(r)
    for av, sim, must in ((-0.1, 1.0, True), (100.1, 1.0, True), (50.0, 0.0, True), (50.0, -1.0, True)):
        st, v = attempt(ta.compute_availability, g, av, sim, None, 5)
        add({"kind": "refuse", "refused": st == "OptimizerException", "must": must, "arg": [av, sim]}, "argument_range")
    ctx.judge("Availability", cases, keys)
    ctx.notes["ambiguous_schedules_dropped"] = dropped
    ctx.notes["kinds"] = {k: keys.count(k) for k in sorted(set(keys))}
