"""Contracts of the (Geo)Interpolator and of the grid and spline interpolators (interpolator.py, geointerpolator.py)."""
from fractions import Fraction as F

import core
import splinemodel as sp
from core import Z, add, band, bor, cmp, div, eq, fresh, mul, sub, sym
from contract import Contract
from geo import R_GEO, forward, latitude, longitude, same_position
from mem import View

IN, GEO = "geotiepoints.interpolator", "geotiepoints.geointerpolator"
BIG = 2**31


def axis(s, name, n, dtype):
    """A strictly increasing vector."""
    v = s.array(name, [n], dtype, kind="nd", contig=None)
    core.sorted_function(v.fn)
    return v


def inrange(st, k, n):
    st.pc += [cmp("<=", 0, k), cmp("<", k, n)]
    return k


def results(ex, val, st):
    return list(ex.items(ex.unlist(val, st), st))


class _Interp(Contract):
    """Interpolator(data, (R, C), (HR, HC), kx, ky).interpolate()"""
    mod, qual = IN, "Interpolator.interpolate"
    level = "api"
    cls = (IN, "Interpolator")
    count = 2
    linear = False

    def setup(self, s, cfg):
        n, m, N, M = s.int("ties_along", 2, BIG), s.int("ties_across", 2, BIG), s.int("fine_along", 1, BIG), s.int("fine_across", 1, BIG)
        idt, dt = cfg.get("index", "f8"), cfg.get("data", "f8")
        self.R, self.C = axis(s, "tie_rows", n, idt), axis(s, "tie_cols", m, idt)
        self.HR = self.R if cfg.get("same") else axis(s, "fine_rows", N, idt)
        self.HC = axis(s, "fine_cols", M, idt)
        if cfg.get("linear"):
            kx = ky = 1
        else:
            kx, ky = s.int("kx", 1, 5), s.int("ky", 1, 5)
            s.st.pc += [cmp(">", m, ky)] + ([] if cfg.get("same") else [cmp(">", n, kx)])
        self.kx, self.ky = kx, ky
        self.data = [s.array("data%d" % k, [n, m], dt, kind="nd", contig=None) for k in range(cfg.get("count", 2))]
        d = self.data[0] if cfg.get("single") else s.ex.mklist(list(self.data), s.st)
        return {"data": d, "tiepoint_grid": (self.R, self.C), "final_grid": (self.HR, self.HC), "kx_": kx, "ky_": ky}

    def make(self, ex, args, s):
        cls = ex.resolve_global(*self.cls, s)
        kw = {k: v for k, v in args.items() if k in ("kx_", "ky_", "chunk_size")}
        return ex.call(cls, [v for k, v in args.items() if k not in kw and not k.startswith("_")], kw, s, None)

    def run(self, ex, fv, args, st):
        def go(s):
            o = self.make(ex, args, s)
            return ex.call(ex.getattr(o, "interpolate", s, None), [], {}, s, None)
        return ex.outcomes(go, st)

    def spec(self, c):
        c.returns(None)

    def readers(self, c):
        return c.reader(self.R), c.reader(self.C), c.reader(self.HR), c.reader(self.HC)

    def wanted(self, c, k):
        """result k as a function of (state, i, j): the spline of this data set alone"""
        rR, rC, rHR, rHC = self.readers(c)
        d = c.reader(self.data[k])
        n, m = self.data[k].shape

        def fn(st, i, j, ex=c.ex):
            v = rHC(st, j)
            if c.cfg.get("same"):
                return sp.spline1(ex, st, rC, m, lambda s, q: d(s, i, q), v, self.ky, "splrep", False)
            row = lambda s2, r: sp.spline1(ex, s2, rC, m, lambda s3, q: d(s3, r, q), v, self.ky, "spline", True)  # noqa: E731
            return sp.spline1(ex, st, rR, n, row, rHR(st, i), self.kx, "spline", True)
        return fn

    def dtype(self, cfg, st):
        return None


class Values(_Interp):
    """Number, shape of the results, and the tie values at the tie positions."""
    configs = ([{"index": i, "data": d} for i in ("i8", "f8") for d in ("f4", "f8")] + [{"count": 1}, {"count": 3}, {"single": True, "count": 1}, {"same": True}, {"same": True, "data": "f4"}])

    def check_return(self, ex, c, val, st, node):
        its = results(ex, val, st)
        ex.oblige("shape", len(its) == len(self.data), st, node, "one result per data set")
        if len(its) != len(self.data):
            return
        for k, v in enumerate(its):
            if not isinstance(v, View) or v.ndim != 2:
                ex.oblige("type", False, st, node, "a two-dimensional array")
                continue
            ex.oblige("shape", eq(v.shape[0], self.HR.shape[0]), st, node, "one row per fine row")
            ex.oblige("shape", eq(v.shape[1], self.HC.shape[0]), st, node, "one column per fine column")
            ex.oblige("dtype", v.dtype in ("f4", "f8"), st, node, "floating result")
            self.at_ties(ex, c, k, v, st, node)
            self.alone(ex, c, k, v, st, node)

    def at_ties(self, ex, c, k, v, st, node):
        rR, rC, rHR, rHC = self.readers(c)
        s2 = st.copy()
        n, m = self.data[k].shape
        i, j = inrange(s2, fresh("i"), v.shape[0]), inrange(s2, fresh("j"), v.shape[1])
        r, q = inrange(s2, fresh("r"), n), inrange(s2, fresh("c"), m)
        s2.pc += [eq(rHR(s2, i), rR(s2, r)), eq(rHC(s2, j), rC(s2, q))]
        if core.decide_false(s2.pc):
            return
        ex.hints = {"node": [r, q]}
        got, want = sp.expand(ex, s2, ex.read(v, [i, j], s2, node, check=False)), ex.read(self.data[k], [r, q], s2, node, check=False)
        ex.hints = {}
        ex.oblige("post", None, s2, node, "the tie value at a tie position (result %d)" % k, eqs=(got, want))

    def alone(self, ex, c, k, v, st, node):
        s2 = st.copy()
        i, j = inrange(s2, fresh("i"), v.shape[0]), inrange(s2, fresh("j"), v.shape[1])
        got = ex.read(v, [i, j], s2, node, check=False)
        # only this data set occurs in the value
        own = {self.data[k].fn.name()}
        others = {d.fn.name() for d in self.data} - own
        names = {x.decl().name() for x in core.subterms(core.unfold_all(Z(got))).values() if core.z3.is_app(x)}
        if names & others:
            ex.oblige("post", False, s2, node, "result %d depends on data set %d alone" % (k, k))
        else:
            ex.oblige("post", True, s2, node, "result %d depends on data set %d alone" % (k, k))


class Spline(_Interp):
    """The value everywhere: along the columns of each row alone when the rows agree, otherwise the tensor product of both."""
    configs = [{"same": True}, {}]

    def check_return(self, ex, c, val, st, node):
        for k, v in enumerate(results(ex, val, st)):
            s2 = st.copy()
            i, j = inrange(s2, fresh("i"), v.shape[0]), inrange(s2, fresh("j"), v.shape[1])
            if not c.cfg.get("same"):
                rR, rC, rHR, rHC = self.readers(c)
                # the case of equal rows is the other configuration
                s2.pc.append(core.bnot(eq(rHR(s2, i), rR(s2, i))))
                inrange(s2, i, self.R.shape[0])
                if core.decide_false(s2.pc):
                    continue
            got, want = ex.read(v, [i, j], s2, node, check=False), self.wanted(c, k)(s2, i, j)
            ex.oblige("post", None, s2, node, "the spline through the data set of result %d" % k, eqs=(got, want))


def bilinear(ex, st, i, j, R, C, HR, HC, D, r, q):
    row = lambda b: sp.hat(ex, st, lambda s, c: C(s, c), lambda s, c: D(s, add(r, b), c), sp.real(HC(st, j)), q)  # noqa: E731
    return sp.hat(ex, st, R, lambda s, x: row(0) if x is r or core.same(x, r) else row(1), sp.real(HR(st, i)), r)


class Linear(_Interp):
    """Linear orders: the bilinear combination of the four surrounding tie points."""
    configs = [{"linear": True, "count": 1, "index": i} for i in ("i8", "f8")] + [{"linear": True, "count": 1, "same": True}]

    def check_return(self, ex, c, val, st, node):
        rR, rC, rHR, rHC = self.readers(c)
        for k, v in enumerate(results(ex, val, st)):
            s2 = st.copy()
            n, m = self.data[k].shape
            i, j = inrange(s2, fresh("i"), v.shape[0]), inrange(s2, fresh("j"), v.shape[1])
            r, q = inrange(s2, fresh("r"), sub(n, 1)), inrange(s2, fresh("c"), sub(m, 1))
            s2.pc += [cmp("<=", rR(s2, r), rHR(s2, i)), cmp("<=", rHR(s2, i), rR(s2, add(r, 1))), cmp("<=", rC(s2, q), rHC(s2, j)), cmp("<=", rHC(s2, j), rC(s2, add(q, 1)))]
            d = c.reader(self.data[k])
            a, b = sp.real(rR(s2, r)), sp.real(rR(s2, add(r, 1)))
            t = div(sub(sp.real(rHR(s2, i)), a), sub(b, a))
            a, b = sp.real(rC(s2, q)), sp.real(rC(s2, add(q, 1)))
            s = div(sub(sp.real(rHC(s2, j)), a), sub(b, a))
            weight = t
            for cond in (eq(i, r), eq(i, add(r, 1)), band(core.bnot(eq(i, r)), core.bnot(eq(i, add(r, 1))))):
                s3 = s2.copy()
                s3.pc.append(cond)
                t = weight
                if core.decide_false(s3.pc):
                    continue
                want = F(0)
                for x in (F(0), F(1)):        # at a tie row the weight is exactly 0 or 1
                    if core.decide(eq(t, x), s3.pc) is True:
                        t = x
                for x in (0, 1):
                    for y in (0, 1):
                        w = mul(t if x else sub(F(1), t), s if y else sub(F(1), s))
                        want = add(want, mul(w, d(s3, add(r, x), add(q, y))))
                ex.hints = {"cell": [r, q]}
                got = sp.expand(ex, s3, ex.read(v, [i, j], s3, node, check=False))
                ex.hints = {}
                ex.oblige("post", None, s3, node, "bilinear between the four surrounding tie points", eqs=(got, want))


INTERNAL = []
CLASS = [Values(), Spline(), Linear()]


# ------------------------------------------------------------------ GeoInterpolator
class GeoValues(_Interp):
    """The positions at the tie positions; longitude and latitude of the interpolated components everywhere."""
    mod, qual = GEO, "GeoInterpolator.interpolate"
    cls = (GEO, "GeoInterpolator")
    configs = [{"index": "i8", "data": "f4"}, {}, {"same": True}]

    def setup(self, s, cfg):
        r = _Interp.setup(self, s, dict(cfg, count=2))
        self.lon, self.lat = self.data
        return {"lon_lat_data": (self.lon, self.lat), **{k: v for k, v in r.items() if k != "data"}}

    def component(self, c, k):
        lo, la = c.reader(self.lon), c.reader(self.lat)
        return lambda st, r, q: core.let(forward(lo(st, r, q), la(st, r, q), k, R_GEO), 0)

    def interpolated(self, c, k):
        """component k of the position, interpolated alone"""
        rR, rC, rHR, rHC = self.readers(c)
        d = self.component(c, k)
        n, m = self.lon.shape

        def fn(st, i, j, ex=c.ex):
            v = rHC(st, j)
            if c.cfg.get("same"):
                return sp.spline1(ex, st, rC, m, lambda s, q: d(s, i, q), v, self.ky, "splrep", False)
            row = lambda s2, r: sp.spline1(ex, s2, rC, m, lambda s3, q: d(s3, r, q), v, self.ky, "spline", True)  # noqa: E731
            return sp.spline1(ex, st, rR, n, row, rHR(st, i), self.kx, "spline", True)
        return fn

    def check_return(self, ex, c, val, st, node):
        its = results(ex, val, st)
        ok = len(its) == 2 and all(isinstance(v, View) and v.ndim == 2 for v in its)
        ex.oblige("type", ok, st, node, "longitudes and latitudes")
        if not ok:
            return
        for v in its:
            ex.oblige("shape", eq(v.shape[0], self.HR.shape[0]), st, node, "one row per fine row")
            ex.oblige("shape", eq(v.shape[1], self.HC.shape[0]), st, node, "one column per fine column")
        rR, rC, rHR, rHC = self.readers(c)
        n, m = self.lon.shape
        s2 = st.copy()
        i, j = inrange(s2, fresh("i"), its[0].shape[0]), inrange(s2, fresh("j"), its[0].shape[1])
        r, q = inrange(s2, fresh("r"), n), inrange(s2, fresh("c"), m)
        s2.pc += [eq(rHR(s2, i), rR(s2, r)), eq(rHC(s2, j), rC(s2, q))]
        if not core.decide_false(s2.pc):
            ex.hints = {"node": [r, q]}
            got = [core.norm(core.unfold_all(Z(sp.expand(ex, s2, ex.read(v, [i, j], s2, node, check=False))))) for v in its]
            ex.hints = {}
            lon, lat = (ex.read(ex.freeze(v, c.st), [r, q], s2, node, check=False) for v in (self.lon, self.lat))
            s2.pc += [cmp("<", F(-180), lon), cmp("<=", lon, F(180)), cmp("<=", F(-90), lat), cmp("<=", lat, F(90))]
            same_position(ex, lon, lat, got[0], got[1], R_GEO, s2, node, ("the longitude of the tie point at its position", "the latitude of the tie point at its position"))
        s2 = st.copy()
        i, j = inrange(s2, fresh("i"), its[0].shape[0]), inrange(s2, fresh("j"), its[0].shape[1])
        if not c.cfg.get("same"):
            s2.pc += [core.bnot(eq(rHR(s2, i), rR(s2, i))), cmp("<", i, n)]
        if core.decide_false(s2.pc):
            return
        xyz = [core.let(self.interpolated(c, k)(s2, i, j), 0) for k in range(3)]
        ex.oblige("post", None, s2, node, "longitude of the interpolated components", eqs=(ex.read(its[0], [i, j], s2, node, check=False), longitude(*xyz)))
        ex.oblige("post", None, s2, node, "latitude of the interpolated components", eqs=(ex.read(its[1], [i, j], s2, node, check=False), latitude(*xyz, R_GEO, F(4, 5), True)))


GEOCLASS = [GeoValues()]
