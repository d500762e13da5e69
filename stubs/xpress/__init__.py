"""Stand-in for the FICO Xpress Python API, over scipy's HiGHS.

Only what terragraph_planner uses.  It is part of the *environment* of the code
under test (an exact MILP solver), not part of any oracle: the checks judge the
planner's decisions, never this module's own claims about them.

It also records every problem handed to the solver (`LOG`) so that a check can
see the objective and the decisions, and lets a check script the outcome of a
solve (`SCRIPT`), which is how solver time-outs and failures are injected.
"""
import math
import os

import numpy as np
from scipy.optimize import Bounds, LinearConstraint, milp
from scipy.sparse import csr_matrix

continuous = 1
binary = 2
integer = 3
minimize = 1
maximize = -1

TIME_LIMIT = float(os.environ["VERIF_XP_TIME"]) if os.environ.get("VERIF_XP_TIME") else None
# override of every time limit, seconds
# The presolve of the bundled HiGHS declares some feasible problems infeasible,
# so small problems are solved both ways and the better answer is kept; when the
# two disagree, a plain branch and bound over the LP relaxations settles it.
SECOND_SOLVE_LIMIT = 300
SCRIPT = []  # callables problem -> None|"time_out"|"infeasible"
LOG = []
KEEP_LOG = False


class SolverError(RuntimeError):
    pass


ModelError = SolverError

_counter = [0]


def _branch_and_bound(c, integ, lo, hi, A, cl, cu, best, x):
    """Improves on (best, x) by exhaustive branching; bounded in nodes."""
    cons = [LinearConstraint(A, cl, cu)] if A is not None else None
    todo = [(lo, hi)]
    for _ in range(3000):
        if not todo:
            break
        l, u = todo.pop()
        res = milp(c, bounds=Bounds(l, u), constraints=cons, options={"presolve": False})
        if res.x is None or res.fun >= best - 1e-7:
            continue
        frac = [(abs(res.x[k] - round(res.x[k])), k) for k in range(len(c)) if integ[k]]
        f, k = max(frac)
        if f < 1e-6:
            y = np.array(res.x)
            for _, j in frac:
                y[j] = round(y[j])
            if A is None or not ((A @ y < cl - 1e-5).any() or (A @ y > cu + 1e-5).any()):
                best, x = float(c @ y), y
            continue
        down, up = np.array(u), np.array(l)
        down[k], up[k] = math.floor(res.x[k]), math.ceil(res.x[k])
        todo += [(l, down), (up, u)] if res.x[k] > 0.5 else [(up, u), (l, down)]
    return best, x


class expression:
    __slots__ = ("co", "k")
    __array_ufunc__ = None  # numpy scalars defer to the reflected operators

    def __init__(self, co=None, k=0.0):
        self.co = co if co is not None else {}
        self.k = k

    @staticmethod
    def of(x):
        if isinstance(x, expression):
            return x
        if isinstance(x, var):
            return expression({x: 1.0}, 0.0)
        return expression({}, float(x))

    def _add(self, o, s):
        o = expression.of(o)
        co = dict(self.co)
        for v, c in o.co.items():
            co[v] = co.get(v, 0.0) + s * c
        return expression(co, self.k + s * o.k)

    def __add__(self, o):
        return self._add(o, 1.0)

    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1.0)

    def __rsub__(self, o):
        return (self * -1.0)._add(o, 1.0)

    def __neg__(self):
        return self * -1.0

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, (expression, var)):
            o = expression.of(o)
            if not o.co:
                o = o.k
            elif not self.co:
                return o * self.k
            else:
                raise SolverError("nonlinear expression")
        o = float(o)
        return expression({v: c * o for v, c in self.co.items()}, self.k * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (expression, var)):
            raise SolverError("nonlinear expression")
        return self * (1.0 / float(o))

    def __le__(self, o):
        return constraint(self - o, -math.inf, 0.0)

    def __ge__(self, o):
        return constraint(self - o, 0.0, math.inf)

    def __eq__(self, o):
        return constraint(self - o, 0.0, 0.0)

    def __ne__(self, o):
        return not (self is o)

    __hash__ = object.__hash__

    def value(self, sol):
        return self.k + sum(c * sol[v] for v, c in self.co.items())


class var:
    __slots__ = ("name", "vartype", "lb", "ub", "uid")
    __array_ufunc__ = None

    def __init__(self, name=None, vartype=continuous, lb=0.0, ub=math.inf, threshold=None):
        _counter[0] += 1
        self.uid = _counter[0]
        self.name = name if name is not None else f"C{self.uid}"
        self.vartype = vartype
        self.lb = float(lb)
        self.ub = float(ub)
        if vartype == binary:
            self.lb = max(self.lb, 0.0)
            self.ub = min(self.ub, 1.0)

    def __hash__(self):
        return hash(self.uid)

    def __repr__(self):
        return self.name

    def _e(self):
        return expression({self: 1.0}, 0.0)

    def __add__(self, o):
        return self._e() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._e() - o

    def __rsub__(self, o):
        return expression.of(o) - self._e()

    def __neg__(self):
        return self._e() * -1.0

    def __pos__(self):
        return self._e()

    def __mul__(self, o):
        return self._e() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._e() / o

    def __le__(self, o):
        return self._e() <= o

    def __ge__(self, o):
        return self._e() >= o

    def __eq__(self, o):
        if self is o:
            return True
        return self._e() == o

    def __ne__(self, o):
        return not (self is o)


class constraint:
    __slots__ = ("expr", "lo", "hi", "name")

    def __init__(self, expr, lo=-math.inf, hi=0.0, name=None):
        self.expr = expr
        self.lo = lo
        self.hi = hi
        self.name = name


def _flat(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from _flat(v)
    elif isinstance(x, (var, expression, constraint)):
        yield x
    elif isinstance(x, (bool, int, float, np.generic)):
        yield x
    else:
        for v in x:
            yield from _flat(v)


def Sum(*args):
    co = {}
    k = 0.0
    for x in _flat(args):
        e = expression.of(x)
        k += e.k
        for v, c in e.co.items():
            co[v] = co.get(v, 0.0) + c
    return expression(co, k)


class _Attributes:
    def __init__(self):
        self.mipsols = 0
        self.lpstatus = 0
        self.mipstatus = 0
        self.mipobjval = 0.0
        self.lpobjval = 0.0
        self.objval = 0.0


class _Controls:
    pass


class problem:
    def __init__(self, *a, name="", **k):
        self._name = name
        self._controls = {}
        self.controls = _Controls()
        self.reset()

    def reset(self):
        self._vars = []
        self._pos = {}
        self._cons = []
        self._obj = expression()
        self._sense = minimize
        self._sol = None
        self.attributes = _Attributes()

    def setprobname(self, name):
        self._name = name

    def setControl(self, *a):
        if len(a) == 1 and isinstance(a[0], dict):
            self._controls.update(a[0])
        else:
            self._controls[a[0]] = a[1]

    def getControl(self, name):
        return self._controls.get(name)

    def addVariable(self, *args):
        for v in _flat(args):
            if v in self._pos:
                raise SolverError(f"duplicate variable {v.name}")
            self._pos[v] = len(self._vars)
            self._vars.append(v)

    def addConstraint(self, *args):
        for c in _flat(args):
            if isinstance(c, (bool, np.bool_)):
                c = constraint(expression({}, 0.0 if c else 1.0), -math.inf, 0.0)
            for v in c.expr.co:
                if v not in self._pos:
                    raise SolverError(f"variable {v.name} is not in the problem")
            self._cons.append(c)

    def delConstraint(self, *args):
        for c in _flat(args):
            n = [k for k, d in enumerate(self._cons) if d is c]
            if not n:
                raise SolverError("no such constraint")
            del self._cons[n[0]]

    def delVariable(self, *args):
        gone = set()
        for v in _flat(args):
            if v not in self._pos:
                raise SolverError(f"variable {v.name} is not in the problem")
            gone.add(v.uid)
        self._vars = [v for v in self._vars if v.uid not in gone]
        self._pos = {v: k for k, v in enumerate(self._vars)}
        for c in self._cons:
            if any(v.uid in gone for v in c.expr.co):
                c.expr = expression({v: a for v, a in c.expr.co.items() if v.uid not in gone}, c.expr.k)
        self._obj = expression({v: a for v, a in self._obj.co.items() if v.uid not in gone}, self._obj.k)

    def setObjective(self, expr, sense=minimize):
        self._obj = expression.of(expr)
        self._sense = sense

    def getIndex(self, v):
        return self._pos[v]

    def getAttrib(self, name):
        return getattr(self.attributes, name)

    def getObjVal(self):
        return self.attributes.objval

    def write(self, path, *a):
        with open(path if path.endswith(".lp") else path + ".lp", "w") as f:
            f.write(f"\\ {self._name}: {len(self._vars)} columns, {len(self._cons)} rows\n")

    def getSolution(self, *args):
        if self._sol is None:
            raise SolverError("no solution")
        if not args:
            return list(self._sol)
        if len(args) > 1:
            return [self.getSolution(a) for a in args]
        x = args[0]
        if isinstance(x, dict):
            return {k: self.getSolution(v) for k, v in x.items()}
        if isinstance(x, var):
            return self._sol[self._pos[x]]
        if isinstance(x, expression):
            return x.value({v: self._sol[i] for v, i in self._pos.items()})
        return [self.getSolution(v) for v in x]

    def solve(self, *a):
        at = self.attributes = _Attributes()
        self._sol = None
        script = SCRIPT.pop(0) if SCRIPT else None
        forced = script(self) if script else None
        n = len(self._vars)
        c = np.zeros(n)
        for v, a_ in self._obj.co.items():
            c[self._pos[v]] += a_
        c = c * (1 if self._sense == minimize else -1)
        integ = np.array([0 if v.vartype == continuous else 1 for v in self._vars], dtype=int)
        lo = np.array([v.lb for v in self._vars])
        hi = np.array([v.ub for v in self._vars])
        rows, cols, data, cl, cu = [], [], [], [], []
        trivial_bad = False
        r = 0
        for k in self._cons:
            co = {v: a_ for v, a_ in k.expr.co.items() if a_ != 0.0}
            l, u = k.lo - k.expr.k, k.hi - k.expr.k
            if not co:
                if l > 1e-9 or u < -1e-9:
                    trivial_bad = True
                continue
            for v, a_ in co.items():
                rows.append(r)
                cols.append(self._pos[v])
                data.append(a_)
            cl.append(l)
            cu.append(u)
            r += 1
        is_mip = bool(integ.any())
        status, x, bound_ok = "infeasible", None, True
        if forced is None and not trivial_bad:
            if n == 0:
                status, x = "optimal", np.zeros(0)
            else:
                t = self._controls.get("maxtime")
                t = abs(t) if t else None
                if TIME_LIMIT is not None:
                    t = TIME_LIMIT
                opts = {}
                if t:
                    opts["time_limit"] = float(t)
                gap = self._controls.get("miprelstop")
                if is_mip:
                    opts["mip_rel_gap"] = float(gap) if gap is not None else 1e-9
                A = csr_matrix((data, (rows, cols)), shape=(r, n)) if r else None
                cons = [LinearConstraint(A, np.array(cl), np.array(cu))] if r else None
                rank = {"optimal": 0, "time_out": 1, "unbounded": 2, "infeasible": 3, "error": 4}
                best = None
                seen = set()
                for pre in (False, True):
                    opts["presolve"] = pre
                    res = milp(c, integrality=integ, bounds=Bounds(lo, hi), constraints=cons, options=opts)
                    st = {0: "optimal", 1: "time_out", 2: "infeasible", 3: "unbounded"}.get(res.status, "error")
                    y = res.x if st in ("optimal", "time_out") else None
                    if y is not None and A is not None:
                        act = A @ y
                        if (act < np.array(cl) - 1e-5).any() or (act > np.array(cu) + 1e-5).any():
                            st, y = "error", None
                    if y is None and st == "optimal":
                        st = "error"
                    val = float(c @ y) if y is not None else math.inf
                    seen.add((st, round(val, 5) if y is not None else None))
                    if best is None or (rank[st], val) < (best[0], best[1] - 1e-9):
                        best = (rank[st], val, st, y)
                    if st in ("optimal", "time_out") and n > SECOND_SOLVE_LIMIT:
                        break
                if is_mip and len(seen) > 1 and "unbounded" not in {s_ for s_, _ in seen}:
                    val, y = _branch_and_bound(c, integ, lo, hi, A, np.array(cl), np.array(cu), best[1], best[3])
                    if y is not None and val < best[1] - 1e-9:
                        best = (0, val, "optimal", y)
                status, x = best[2], best[3]
        elif forced is not None:
            status = forced
        if x is not None:
            x = np.array(x, dtype=float)
            for k in range(n):
                if integ[k]:
                    x[k] = round(x[k])
                else:
                    x[k] = min(max(x[k], lo[k]), hi[k])
            obj = self._obj.k + sum(a_ * x[self._pos[v]] for v, a_ in self._obj.co.items())
            self._sol = [float(y) for y in x]
            at.objval = at.mipobjval = at.lpobjval = float(obj)
        if is_mip:
            at.mipsols = 0 if x is None else 1
            at.mipstatus = {"optimal": 6, "infeasible": 5, "unbounded": 7}.get(status, 4 if x is not None else 3)
            at.lpstatus = 2 if status == "infeasible" else 1
        else:
            at.mipstatus = 0
            at.lpstatus = {"optimal": 1, "infeasible": 2, "unbounded": 5, "time_out": 4}.get(status, 7)
        if KEEP_LOG:
            LOG.append(
                {
                    "name": self._name,
                    "status": status,
                    "objective": at.objval,
                    "columns": n,
                    "rows": len(self._cons),
                }
            )


def evaluate(expr, problem=None, solution=None):
    def one(e):
        if isinstance(e, (var, expression)):
            e = expression.of(e)
            if solution is not None:
                return float(sum(c * solution[v] for v, c in e.co.items()) + e.k)
            return float(problem.getSolution(e))
        return float(e)

    if isinstance(expr, (list, tuple)):
        return np.array([one(e) for e in expr])
    return np.array([one(expr)])


def init(*a, **k):
    return None
