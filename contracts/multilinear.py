"""Contracts of the multilinear interpolation (multilinear_cython.pyx, multilinear.py)."""
import itertools
from fractions import Fraction as F

import core
from core import Z, add, band, bor, cmp, div, eq, ite, mul, sub, sym
from contract import ANY, Contract, SpecError
from mem import View
from npmodel import unravel

MC = "geotiepoints.multilinear_cython"
MP = "geotiepoints.multilinear"


def real(x):
    return Z(x, True) if sym(x) else F(x)


def floor(u):
    import z3
    return z3.ToInt(u) if sym(u) else (F(u).numerator // F(u).denominator)


def clamp(x, lo, hi):
    return ite(cmp("<", x, lo), lo, ite(cmp(">", x, hi), hi, x))


def cell(u, order, pc=None):
    """The grid cell of a position: the interval containing it, the outermost ones continued."""
    x, hi = floor(u), sub(order, 2)
    if pc is not None:
        for cond, v in ((cmp("<", x, 0), 0), (cmp(">", x, hi), hi), (band(cmp(">=", x, 0), cmp("<=", x, hi)), x)):
            if core.decide(cond, pc) is True:
                return v
    return clamp(x, 0, hi)


class CellIndex(Contract):
    mod, qual = MC, "_cell_index"

    def setup(self, s, cfg):
        return {"x": s.real("x"), "order": s.int("order", 2, 2**31 - 1)}

    def spec(self, c):
        c.require(cmp(">=", c.a.order, 2), "at least two nodes")
        c.returns(cell(c.a.x, c.a.order))


def constant(t):
    p = core.poly(t) if sym(t) else {(): F(t)} if t else {}
    return p.get((), F(0)) if all(m == () for m in p) else t


def product(xs):
    r = 1
    for x in xs:
        r = mul(r, x)
    return r


def combination(d, smin, smax, orders, value, point, st, simplify=False):
    """The d-linear combination at a point: corner weights are products of fractional positions."""
    q, lam = [], []
    for k in range(d):
        u = mul(div(sub(point(st, k), smin(st, k)), sub(smax(st, k), smin(st, k))), real(sub(orders(st, k), 1)))
        if simplify:
            u = core.cancel(core.norm(core.unfold_all(Z(u))), st.pc)
        q.append(cell(u, orders(st, k), st.pc if simplify else None))
        t = sub(u, real(q[-1]))
        lam.append(constant(t) if simplify else core.let(t))
    total = F(0)
    for corner in itertools.product((0, 1), repeat=d):
        idx, w = 0, F(1)
        for k in range(d):
            idx = add(mul(idx, orders(st, k)), add(q[k], corner[k]))
            w = mul(w, lam[k] if corner[k] else sub(F(1), lam[k]))
        total = add(total, mul(w, value(st, idx)))
    return total


def grid_requirements(c, d, smin, smax, orders, n_values, st):
    for k in range(d):
        c.require(cmp("<", smin(st, k), smax(st, k)), "smin < smax in dimension %d" % k)
        c.require(cmp(">=", orders(st, k), 2), "at least two nodes in dimension %d" % k)
    c.require(eq(product([orders(st, k) for k in range(d)]), n_values), "one value per node")
    c.require(cmp("<", n_values, 2**31), "the grid has less than 2**31 nodes")


class Kernel(Contract):
    mod = MC

    def __init__(self, d):
        self.d = d
        self.qual = "multilinear_interpolation_%dd" % d

    def setup(self, s, cfg):
        d = self.d
        n = s.int("n_s", 0, 2**31 - 1)
        return {"smin": s.array("smin", [d], contig=False), "smax": s.array("smax", [d], contig=False), "orders": s.array("orders", [d], "long", contig=False),
                "V": s.array("V", [s.int("n_values", 0)], contig=False), "n_s": n, "s": s.array("s", [d, n]), "output": s.array("output", [n], uninit=True, contig=False)}

    def spec(self, c):
        d, a = self.d, c.a
        for v, sh in ((a.smin, [d]), (a.smax, [d]), (a.orders, [d]), (a.s, [d, a.n_s]), (a.output, [a.n_s])):
            for k, n in enumerate(sh):
                c.require(eq(v.shape[k], n), "array extents")
        smin, smax, orders, V, s = [c.reader(v) for v in (a.smin, a.smax, a.orders, a.V, a.s)]
        grid_requirements(c, d, smin, smax, orders, a.V.shape[0], c.st)
        c.assign(a.output, lambda st, i: combination(d, smin, smax, orders, V, lambda st, k: s(st, k, i), st))


class Dispatch(Contract):
    """multilinear_interpolation: every row of values at every point."""
    mod, qual = MC, "multilinear_interpolation"
    level = "api"
    configs = [{"d": d, "dtype": t} for d in range(1, 6) for t in ("f4", "f8")]

    def matches(self, c):
        d = c.a.s.shape[0]
        if sym(d) or not 1 <= d <= 5:
            return None
        return {"d": d, "dtype": c.a.s.dtype}

    def setup(self, s, cfg):
        d, t = cfg["d"], cfg["dtype"]
        n = s.int("n_s", 0, 2**31 - 1)
        nv = s.int("n_v", 0, 2**31 - 1)
        return {"smin": s.array("smin", [d], t, contig=False), "smax": s.array("smax", [d], t, contig=False), "orders": s.array("orders", [d], "long", contig=False),
                "values": s.array("values", [nv, s.int("n_values", 0)], t), "s": s.array("s", [d, n], t)}

    def spec(self, c):
        d, a = c.cfg["d"], c.a
        bad = bor(*[cmp("!=", v.shape[0], d) for v in (a.smin, a.smax, a.orders)])
        if bad is True:
            c.raises(True, "ValueError")
            c.returns(ANY)
            return
        smin, smax, orders, values, s = [c.reader(v) for v in (a.smin, a.smax, a.orders, a["values"], a.s)]
        few = bor(*[cmp("<", orders(c.st, k), 2) for k in range(d)])
        wrong = cmp("!=", product([orders(c.st, k) for k in range(d)]), a["values"].shape[1])
        c.raises(bor(bad, few, wrong), "ValueError")
        c.require(bor(bad, few, wrong, cmp("<", a["values"].shape[1], 2**31)), "the grid has less than 2**31 nodes")
        for k in range(d):
            c.require(bor(bad, few, wrong, cmp("<", smin(c.st, k), smax(c.st, k))), "smin < smax in dimension %d" % k)
        c.returns(c.array([a["values"].shape[0], a.s.shape[1]], c.cfg["dtype"],
                          lambda st, v, i: combination(d, smin, smax, orders, lambda st, n: values(st, v, n), lambda st, k: s(st, k, i), st,
                                                      getattr(c.ex, "at_nodes", False))))


def node_coordinate(smin, smax, order, i):
    """Coordinate of node i of a dimension."""
    return add(smin, div(mul(real(i), sub(smax, smin)), real(sub(order, 1))))


def node_grid(c, smin, smax, orders):
    """The d x prod(orders) array whose column k is the node of mixed-radix index k (last dimension fastest)."""
    d = len(orders)

    def at(st, row, col):
        digits = unravel(col, orders, st.pc)
        vals = [node_coordinate(smin[j], smax[j], orders[j], digits[j]) for j in range(d)]
        r = vals[-1]
        for j in reversed(range(d - 1)):
            r = ite(eq(row, j), vals[j], r)
        return r
    g = c.array([d, product(orders)], "f8", at)
    g.radix = {1: list(orders)}
    return g


class Mlinspace(Contract):
    """The grid of nodes."""
    mod, qual = MP, "mlinspace"
    configs = [{"d": d} for d in range(1, 6)]

    def matches(self, c):
        n = c.a.orders.shape[0] if hasattr(c.a.orders, "shape") else None
        return None if n is None or sym(n) or not 1 <= n <= 5 else {"d": n}

    def setup(self, s, cfg):
        d = cfg["d"]
        return {"smin": s.array("smin", [d], "f8", kind="nd"), "smax": s.array("smax", [d], "f8", kind="nd"), "orders": s.array("orders", [d], "i8", kind="nd")}

    def spec(self, c):
        d, a = c.cfg["d"], c.a
        lo, hi, n = [[c.read(v, k) for k in range(d)] for v in (a.smin, a.smax, a.orders)]
        for k in range(d):
            c.require(cmp(">=", n[k], 2), "at least two nodes in dimension %d" % k)
        c.require(cmp("<", product(n), 2**31), "fewer than 2**31 nodes")
        c.returns(node_grid(c, lo, hi, n))


class _Class(Contract):
    """Histories of calls on a MultilinearInterpolator built from lists."""
    mod, qual = MP, "MultilinearInterpolator.__init__"
    level = "api"
    configs = [{"d": d} for d in range(1, 6)]

    def setup(self, s, cfg):
        d = cfg["d"]
        lo, hi = [s.real("smin%d" % k) for k in range(d)], [s.real("smax%d" % k) for k in range(d)]
        n = [s.int("order%d" % k, 2, 2**31 - 1) for k in range(d)]
        for a, b in zip(lo, hi):
            s.st.pc.append(cmp("<", a, b))
        s.st.pc.append(cmp("<", product(n), 2**31))
        self.lo, self.hi, self.n = lo, hi, n
        mk = lambda v: s.ex.mklist(list(v), s.st)  # noqa: E731
        return {"smin": mk(lo), "smax": mk(hi), "orders": mk(n)}

    def make(self, ex, args, st):
        cls = ex.resolve_global(MP, "MultilinearInterpolator", st)
        return ex.call(cls, [args["smin"], args["smax"], args["orders"]], {}, st, None)


class Grid(_Class):
    """The grid attribute lists the nodes in mixed-radix order."""

    def run(self, ex, fv, args, st):
        return ex.outcomes(lambda s: ex.getattr(self.make(ex, args, s), "grid", s, None), st)

    def spec(self, c):
        c.returns(node_grid(c, self.lo, self.hi, self.n))


class RoundTrip(_Class):
    """Values set on the grid and evaluated at the grid are returned."""

    def setup(self, s, cfg):
        r = _Class.setup(self, s, cfg)
        r["_values"] = s.array("values", [s.int("n_v", 0, 2**31 - 1), product(self.n)], "f8", kind="nd", contig=None)
        return r

    def run(self, ex, fv, args, st):
        def go(s):
            o = self.make(ex, args, s)
            g = ex.getattr(o, "grid", s, None)
            ex.call(ex.getattr(o, "set_values", s, None), [args["_values"]], {}, s, None)
            ex.at_nodes = True
            return ex.call(ex.getattr(o, "interpolate", s, None), [g], {}, s, None)
        return ex.outcomes(go, st)

    def spec(self, c):
        v = c.reader(c.a._values)
        c.returns(c.array([c.a._values.shape[0], product(self.n)], "f8", v))

    def check_return(self, ex, c, val, st, node):
        if not isinstance(val, View) or val.ndim != 2:
            ex.oblige("type", False, st, node, "a two-dimensional array")
            return
        for k in range(2):
            ex.oblige("shape", eq(val.shape[k], c.ret.shape[k]), st, node, "extent %d" % k)
        row, digits = core.fresh("row"), [core.fresh("node") for _ in self.n]
        # every column is a mixed-radix number of these digits; the last node of a dimension belongs to the cell before it
        for last in itertools.product((False, True), repeat=len(digits)):
            s2, col = st.copy(), 0
            s2.pc += [cmp("<=", 0, row), cmp("<", row, c.ret.shape[0])]
            for l, k, n in zip(last, digits, self.n):
                if l:
                    k = sub(n, 1)
                else:
                    s2.pc += [cmp("<=", 0, k), cmp("<", k, sub(n, 1))]
                col = add(mul(col, n), k)
            got, want = (ex.read(v, [row, col], s2, node, check=False) for v in (val, c.ret))
            ex.oblige("post", None, s2, node, "the value at a node comes back", eqs=(got, want))


class Evaluate(_Class):
    """interpolate on the class: the d-linear combination at every point."""

    def setup(self, s, cfg):
        r = _Class.setup(self, s, cfg)
        r["_values"] = s.array("values", [s.int("n_v", 0, 2**31 - 1), product(self.n)], "f8", kind="nd", contig=None)
        r["_points"] = s.array("points", [cfg["d"], s.int("n_s", 0, 2**31 - 1)], "f8", kind="nd", contig=None)
        return r

    def run(self, ex, fv, args, st):
        def go(s):
            o = self.make(ex, args, s)
            ex.call(ex.getattr(o, "set_values", s, None), [args["_values"]], {}, s, None)
            return ex.call(o, [args["_points"]], {}, s, None)
        return ex.outcomes(go, st)

    def spec(self, c):
        v, p, d = c.reader(c.a._values), c.reader(c.a._points), c.cfg["d"]
        pick = lambda xs: lambda st, k: xs[k]  # noqa: E731
        c.returns(c.array([c.a._values.shape[0], c.a._points.shape[1]], "f8",
                          lambda st, r, i: combination(d, pick(self.lo), pick(self.hi), pick(self.n), lambda s2, n: v(s2, r, n), lambda s2, k: p(s2, k, i), st)))


class RejectValues(Evaluate):
    """Values whose width is not the number of nodes are rejected when evaluating, at the latest."""

    def setup(self, s, cfg):
        r = Evaluate.setup(self, s, cfg)
        w = s.int("width", 0, 2**31 - 1)
        s.st.pc.append(cmp("!=", w, product(self.n)))
        r["_values"] = s.array("values", [s.int("n_v", 0, 2**31 - 1), w], "f8", kind="nd", contig=None)
        return r

    def spec(self, c):
        c.raises(True, "Exception")


INTERNAL = [CellIndex()] + [Kernel(d) for d in range(1, 6)]
API = [Dispatch()]


class DispatchUse(Dispatch):
    """The same contract, used at calls."""


DISPATCH = DispatchUse()
GRID_INTERNAL = INTERNAL + [DISPATCH, Mlinspace()]
GRID_API = [Grid(), RoundTrip(), RejectValues()]
EVAL_API = [Evaluate()]
