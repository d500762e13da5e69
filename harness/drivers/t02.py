"""T02: status rules of sites, sectors and links (spec/StatusRules.tla)."""
import itertools

from harness import tlc
from harness import world as w
from harness.core import attempt

LEVEL = "model_checking"
RULE = "a distinct assignment of statuses to the five elements"
EL = ["A", "B", "S", "AB", "BA"]


class Net:
    """Two sites, a sector and the two links, built with given statuses."""

    def __init__(self, st):
        d = w.device()
        self.o = o = {}
        o["A"] = w.site("POP", w.at(0, 0, 5.0), d, st["A"])
        o["B"] = w.site("DN", w.at(100, 0, 5.0), d, st["B"])
        o["S"] = w.Sector(o["A"], 0, 0, 90.0, w.ST[st["S"]])
        o["AB"] = w.Link(o["A"], o["B"], status_type=w.ST[st["AB"]])
        o["BA"] = w.Link(o["B"], o["A"], status_type=w.ST[st["BA"]])

    def set(self, e, x):
        def f():
            self.o[e].status_type = w.ST[x]

        return res(attempt(f)[0])

    def state(self):
        return {e: self.o[e].status_type.name for e in EL}


def res(r):
    return r if r == "ok" else "refused" if r == "TopologyException" else "crash_" + r


def run(ctx):
    rc, es, dist, gen, rest = tlc.edges(
        None,
        "StatusRulesMC",
        "SPECIFICATION Spec\nINVARIANT Frozen\nPROPERTY NextLegal\nCHECK_DEADLOCK FALSE\n",
        workers=4,
    )
    if rc != 0:
        raise tlc.TlcError(rest)
    ctx.model(dist, gen, "StatusRulesMC")
    builds = []
    for c in itertools.product(w.STATUS, repeat=5):
        s = dict(zip(EL, c))
        builds.append({"kind": "build", "state": s, "res": res(attempt(Net, s)[0])})
    ctx.judge("StatusRules", builds, ["build"] * len(builds))
    legal = [e["s"] for e in es if e["k"] == "I"]
    cases = []
    # from every buildable network, every single change
    for s in legal:
        for e in EL:
            for x in w.STATUS:
                r, n = attempt(Net, s)
                if r != "ok":
                    continue
                q = n.set(e, x)
                cases.append({"kind": "history", "init": s, "steps": [{"e": e, "x": x, "res": q, "after": n.state()}]})
        ctx.nontrivial(str(sorted(s.items())))
    # long histories
    for k in range(ctx.pick(400, 6000)):
        rng = ctx.sub(f"h{k}")
        s = rng.choice(legal)
        r, n = attempt(Net, s)
        if r != "ok":
            continue
        steps = []
        for _ in range(25):
            e, x = rng.choice(EL), rng.choice(w.STATUS if rng.random() < 0.4 else ["PROPOSED", "CANDIDATE", "UNREACHABLE"])
            q = n.set(e, x)
            steps.append({"e": e, "x": x, "res": q, "after": n.state()})
            ctx.nontrivial(str(sorted(n.state().items())))
        cases.append({"kind": "history", "init": s, "steps": steps})
    ctx.judge("StatusRules", cases, ["history"] * len(cases))
