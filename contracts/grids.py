"""Contracts of the single, multiple and geographic grid and spline interpolators."""
from fractions import Fraction as F

import core
import splinemodel as sp
from core import Z, add, band, bor, cmp, div, eq, fresh, mul, sub, sym
from contract import Contract
from geo import R_GEO, forward, latitude, longitude, same_position
from interp import BIG, GEO, IN, axis, inrange, results
from mem import View
from npmodel import sign

EXTRA = {"bounds_error": False, "fill_value": None}


class _Grid(Contract):
    """An interpolator on tie points (P0, P1) evaluated at fine points (Q0, Q1), or on a requested shape."""
    level = "api"

    def setup(self, s, cfg):
        idt = cfg.get("index", "f8")
        self.cfg = cfg
        n, m = s.int("ties_along", 6, BIG), s.int("ties_across", 6, BIG)
        self.P = [axis(s, "tie_rows", n, idt), axis(s, "tie_cols", m, idt)]
        self.N = [s.int("fine_along", 1, BIG), s.int("fine_across", 1, BIG)]
        self.Q = [s.array(x, [k], cfg.get("fine", "f8"), kind="nd", contig=None) for x, k in zip(("fine_rows", "fine_cols"), self.N)]
        if cfg["kind"] == "spline":
            # the spline wants its evaluation points in order
            for q in self.Q:
                core.sorted_function(q.fn, strict=False)
        self.values = [s.array("values%d" % k, [n, m], cfg.get("data", "f8"), kind="nd", contig=None) for k in range(cfg.get("count", 1))]
        if not self.extrapolates(cfg):
            # positions within the grid
            for p, q, k in zip(self.P, self.Q, (n, m)):
                core._facts_for[q.fn.name()] = lambda x, p=p, k=k: [Z(p.fn(Z(0))) <= x if p.dtype == "f8" else Z(core.cmp("<=", p.fn(Z(0)), x)), Z(core.cmp("<=", x, p.fn(Z(sub(k, 1)))))]
        r = {"tie_points": (self.P[0], self.P[1]), "fine_points": (self.Q[0], self.Q[1])}
        for k, v in enumerate(self.values):
            r["values%d" % k] = v
        return r

    def extrapolates(self, cfg):
        return cfg["kind"] == "spline" or cfg.get("init", {}).get("bounds_error") is False

    def spec(self, c):
        c.returns(None)

    def build(self, ex, st, mod, cls, args, kw):
        return ex.call(ex.resolve_global(mod, cls, st), args, dict(kw), st, None)

    def evaluate(self, ex, st, o, args, cfg):
        if cfg.get("to_shape"):
            return ex.call(ex.getattr(o, "interpolate_to_shape", st, None), [(self.N[0], self.N[1])], dict(cfg.get("call", {})), st, None)
        return ex.call(ex.getattr(o, "interpolate", st, None), [args["fine_points"]], dict(cfg.get("call", {})), st, None)

    def single(self, ex, st, args, cfg, values):
        cls = "SingleSplineInterpolator" if cfg["kind"] == "spline" else "SingleGridInterpolator"
        return self.build(ex, st, IN, cls, [args["tie_points"], values], cfg.get("init", {}))

    def shape(self, ex, v, st, node, what=""):
        if not isinstance(v, View) or v.ndim != 2:
            ex.oblige("type", False, st, node, "a two-dimensional array" + what)
            return False
        for k in range(2):
            ex.oblige("shape", eq(v.shape[k], self.N[k]), st, node, "extent %d follows the fine points%s" % (k, what))
        return True

    def where(self, c):
        return [c.reader(p) for p in self.P], [c.reader(q) for q in self.Q]


class Single(_Grid):
    mod, qual = IN, "AbstractSingleInterpolator.interpolate"
    configs = ([{"kind": "grid", "index": i, "data": d, "init": kw} for i in ("i8", "f8") for d in ("f4", "f8") for kw in ({}, EXTRA)] +
               [{"kind": "grid", "data": "i4"}, {"kind": "grid", "init": {"method": "nearest"}}, {"kind": "grid", "init": dict(EXTRA, method="nearest")}, {"kind": "grid", "call": {"method": "nearest"}},
                {"kind": "grid", "init": {"method": "cubic"}}, {"kind": "grid", "init": {"method": "nearest"}, "call": {"method": "linear"}}] +
               [{"kind": "spline", "index": i, "data": d, "init": kw} for i in ("i8", "f8") for d in ("f4", "f8") for kw in ({}, {"kx": 1, "ky": 1}, {"kx": 1, "ky": 3})] + [{"kind": "spline", "data": "i4"}])

    def run(self, ex, fv, args, st):
        ex_cfg = self.cfg
        return ex.outcomes(lambda s: self.evaluate(ex, s, self.single(ex, s, args, ex_cfg, args["values0"]), args, ex_cfg), st)

    def method(self, cfg):
        return cfg.get("call", {}).get("method") or cfg.get("init", {}).get("method") or "linear"

    def check_return(self, ex, c, v, st, node):
        if not self.shape(ex, v, st, node):
            return
        val = self.values[0]
        ex.oblige("dtype", v.dtype == val.dtype, st, node, "the dtype of the values")
        P, Q = self.where(c)
        n, m = val.shape
        s2 = st.copy()
        i, j, r, q = inrange(s2, fresh("i"), self.N[0]), inrange(s2, fresh("j"), self.N[1]), inrange(s2, fresh("r"), n), inrange(s2, fresh("c"), m)
        s3 = s2.copy()
        s3.pc += [eq(Q[0](s3, i), P[0](s3, r)), eq(Q[1](s3, j), P[1](s3, q))]
        ex.hints = {"node": [r, q]}
        got = sp.expand(ex, s3, ex.read(v, [i, j], s3, node, check=False))
        ex.hints = {}
        ex.oblige("post", None, s3, node, "the tie value at a tie position", eqs=(got, ex.read(val, [r, q], s3, node, check=False)))
        cfg = c.cfg
        if val.dtype == "i4":
            return
        if cfg["kind"] == "grid" and self.method(cfg) == "linear" or cfg.get("init", {}).get("kx") == 1 and cfg["init"].get("ky") == 1:
            self.bilinear(ex, c, v, s2, i, j, r, q, P, Q, node)
        if self.method(cfg) == "nearest":
            s3 = s2.copy()
            for k, (x, y, e) in enumerate(((i, r, n), (j, q, m))):
                p, u = sp.real(P[k](s3, y)), sp.real(Q[k](s3, x))
                s3.pc += [bor(eq(y, 0), cmp(">", mul(F(2), u), add(sp.real(P[k](s3, sub(y, 1))), p))), bor(eq(y, sub(e, 1)), cmp("<", mul(F(2), u), add(p, sp.real(P[k](s3, add(y, 1))))))]
            ex.hints = {"nearest": [r, q]}
            got = sp.expand(ex, s3, ex.read(v, [i, j], s3, node, check=False))
            ex.hints = {}
            ex.oblige("post", None, s3, node, "the value of the nearest tie point", eqs=(got, ex.read(val, [r, q], s3, node, check=False)))

    def bilinear(self, ex, c, v, st, i, j, r, q, P, Q, node):
        """In the cell (r, c); outside, the outermost cell is continued (grid) or the position clamped (spline: inside only)."""
        s2 = st.copy()
        val = self.values[0]
        outside = self.extrapolates(c.cfg) and c.cfg["kind"] == "grid"
        w = []
        for k, (x, y, e) in enumerate(((i, r, val.shape[0]), (j, q, val.shape[1]))):
            s2.pc.append(cmp("<", y, sub(e, 1)))
            u, a, b = sp.real(Q[k](s2, x)), sp.real(P[k](s2, y)), sp.real(P[k](s2, add(y, 1)))
            lo, hi = cmp("<=", a, u), cmp("<=", u, b)
            s2.pc += [bor(eq(y, 0), lo), bor(eq(y, sub(e, 2)), hi)] if outside else [lo, hi]
            w.append(div(sub(u, a), sub(b, a)))
        ex.hints = {"cell": [r, q]}
        got = sp.expand(ex, s2, ex.read(v, [i, j], s2, node, check=False))
        ex.hints = {}
        want, rd = F(0), c.reader(val)
        for x in (0, 1):
            for y in (0, 1):
                want = add(want, mul(mul(w[0] if x else sub(F(1), w[0]), w[1] if y else sub(F(1), w[1])), rd(s2, add(r, x), add(q, y))))
        ex.oblige("post", None, s2, node, "bilinear in the cell of the position", eqs=(got, want))


KWARGS = [{"kind": "grid"}, {"kind": "grid", "init": EXTRA, "data": "f4"}, {"kind": "grid", "init": dict(EXTRA, method="nearest")}, {"kind": "grid", "init": EXTRA, "call": {"method": "nearest"}},
          {"kind": "grid", "init": EXTRA, "to_shape": True}, {"kind": "grid", "init": EXTRA, "to_shape": True, "call": {"method": "nearest"}},
          {"kind": "spline"}, {"kind": "spline", "init": {"kx": 1, "ky": 1}, "data": "f4"}, {"kind": "spline", "init": {"kx": 2, "ky": 4}}, {"kind": "spline", "to_shape": True}]


class Multiple(_Grid):
    """Result k is what a single interpolator on data set k returns for the same arguments."""
    mod, qual = IN, "AbstractMultipleInterpolator.interpolate"
    configs = [dict(k, count=n) for n, k in zip([2, 3, 1, 2] * 4, KWARGS)]

    def args_of(self, args):
        return [args["values%d" % k] for k in range(len(self.values))]

    def classes(self, cfg):
        return IN, "MultipleSplineInterpolator" if cfg["kind"] == "spline" else "MultipleGridInterpolator"

    def run(self, ex, fv, args, st):
        cfg = self.cfg

        def go(s):
            o = self.build(ex, s, *self.classes(cfg), [args["tie_points"]] + self.args_of(args), cfg.get("init", {}))
            r = self.evaluate(ex, s, o, args, cfg)
            its = tuple(results(ex, r, s))
            # twice, with another evaluation in between: the same again
            return its, self.wanted(ex, s, args, cfg)
        return ex.outcomes(go, st)

    def wanted(self, ex, s, args, cfg):
        if cfg.get("to_shape"):
            ar = ex.libs["numpy"].table["arange"]
            args = dict(args, fine_points=tuple(ar.fn(ex, s, [n], {}, None) for n in self.N))
            cfg = {k: v for k, v in cfg.items() if k != "to_shape"}
        return tuple(self.evaluate(ex, s, self.single(ex, s, args, cfg, v), args, cfg) for v in self.singles(ex, s, args))

    def singles(self, ex, s, args):
        return self.args_of(args)

    def check_return(self, ex, c, val, st, node):
        got, want = val
        ex.oblige("shape", len(got) == len(want), st, node, "one result per data set")
        if len(got) != len(want):
            return
        for k, (a, b) in enumerate(zip(got, want)):
            if not self.shape(ex, a, st, node, " (result %d)" % k):
                continue
            ex.oblige("dtype", a.dtype == b.dtype, st, node, "dtype of result %d" % k)
            self.same(ex, c, a, b, st, node, k)

    def same(self, ex, c, a, b, st, node, k):
        s2 = st.copy()
        i, j = inrange(s2, fresh("i"), self.N[0]), inrange(s2, fresh("j"), self.N[1])
        ex.oblige("post", None, s2, node, "result %d is the single interpolation of data set %d" % (k, k), eqs=tuple(ex.read(x, [i, j], s2, node, check=False) for x in (a, b)))


class Geo(Multiple):
    """Longitude and latitude of the Cartesian components, each interpolated alone."""
    mod, qual = GEO, "GeoGridInterpolator"
    configs = [dict(k, count=2) for k in KWARGS]

    def function(self, ex, mod, qual):
        from contract import function_of
        return function_of(ex, GEO, "_work_with_lonlats")

    def classes(self, cfg):
        return GEO, "GeoSplineInterpolator" if cfg["kind"] == "spline" else "GeoGridInterpolator"

    def singles(self, ex, s, args):
        lo, la = (ex.freeze(v, s) for v in self.values)
        rd = lambda st, v, i, j: ex.read(v, [i, j], st, None, check=False)  # noqa: E731
        dt = self.values[0].dtype
        return [ex.fnarray(s, self.values[0].shape, dt, lambda e, st, p, k=k: core.let(forward(rd(st, lo, *p), rd(st, la, *p), k, R_GEO), 0), "component") for k in range(3)]

    def check_return(self, ex, c, val, st, node):
        got, xyz = val
        ok = len(got) == 2
        ex.oblige("type", ok, st, node, "longitudes and latitudes")
        if not ok or not all([self.shape(ex, v, st, node) for v in got]):
            return
        s2 = st.copy()
        i, j = inrange(s2, fresh("i"), self.N[0]), inrange(s2, fresh("j"), self.N[1])
        p = [core.let(ex.read(v, [i, j], s2, node, check=False), 0) for v in xyz]
        ex.oblige("post", None, s2, node, "longitude of the interpolated components", eqs=(ex.read(got[0], [i, j], s2, node, check=False), longitude(*p)))
        ex.oblige("post", None, s2, node, "latitude of the interpolated components", eqs=(ex.read(got[1], [i, j], s2, node, check=False), latitude(*p, R_GEO, F(4, 5), True)))
        if c.cfg.get("to_shape"):
            return
        P, Q = self.where(c)
        s2 = st.copy()
        i, j = inrange(s2, fresh("i"), self.N[0]), inrange(s2, fresh("j"), self.N[1])
        r, q = inrange(s2, fresh("r"), self.values[0].shape[0]), inrange(s2, fresh("c"), self.values[0].shape[1])
        s2.pc += [eq(Q[0](s2, i), P[0](s2, r)), eq(Q[1](s2, j), P[1](s2, q))]
        ex.hints = {"node": [r, q]}
        g = [core.norm(core.unfold_all(Z(sp.expand(ex, s2, ex.read(v, [i, j], s2, node, check=False))))) for v in got]
        ex.hints = {}
        lon, lat = (ex.read(ex.freeze(v, c.st), [r, q], s2, node, check=False) for v in self.values)
        s2.pc += [cmp("<", F(-180), lon), cmp("<=", lon, F(180)), cmp("<=", F(-90), lat), cmp("<=", lat, F(90))]
        same_position(ex, lon, lat, g[0], g[1], R_GEO, s2, node, ("the longitude of the tie point at its position", "the latitude of the tie point at its position"))


INTERNAL = []
API = [Single(), Multiple(), Geo()]
