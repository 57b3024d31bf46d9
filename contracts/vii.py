"""Contracts of the VII interpolation (viiinterpolator.py)."""
from fractions import Fraction as F

import core
from core import Z, add, band, bor, cmp, div, eq, ite, mul, neg, sub, sym
from contract import Contract, Pred
from mem import View, idiv
from modis import real
from npmodel import absval, acos, asin, atan2, cos, deg2rad, extreme, rad2deg, sign, sin, sqrt
from xrmodel import DataArray

R_VII = F("6371008.7714")
VI = "geotiepoints.viiinterpolator"


def bilinear_in_scan(src, ts, f):
    """Pixel (i, j): bilinear between the four tie points of its own scan around (i / f, j / f)."""
    rows = mul(sub(ts, 1), f)

    def fn(st, i, j):
        scan = idiv(i, rows, st.pc)
        il = sub(i, mul(scan, rows))
        q, c = idiv(il, f, st.pc), idiv(j, f, st.pc)
        t, s = div(real(sub(il, mul(q, f))), real(f)), div(real(sub(j, mul(c, f))), real(f))
        r = add(mul(scan, ts), q)
        row = [core.let(add(mul(sub(F(1), t), src(st, r, add(c, b))), mul(t, src(st, add(r, 1), add(c, b))))) for b in (0, 1)]
        return core.let(add(mul(sub(F(1), s), row[0]), mul(s, row[1])))
    return fn


class Labelled(DataArray, Pred):
    """A DataArray with the given dimension names and contents and no coordinates."""

    def __init__(self, view, dims):
        DataArray.__init__(self, view, dims)
        self.view = view

    def check(self, ex, c, got, st, node, name):
        import contract
        if not isinstance(got, DataArray):
            ex.oblige("type", False, st, node, "%s is a DataArray" % name)
            return
        ex.oblige("type", got.dims == self.dims, st, node, "%s has dimensions %s" % (name, ", ".join(self.dims)))
        ex.oblige("type", not got.coords, st, node, "%s has no coordinates" % name)
        contract.compare(ex, c, got.data, self.view, st, node, name)


def ties(s, n, ts, act, name):
    return s.array(name, [mul(n, ts), act], kind="nd", contig=None)


class Interpolation(Contract):
    """tie_points_interpolation on one to three arrays of equal shape and names."""
    mod, qual = VI, "tie_points_interpolation"
    configs = [{"arrays": 1}, {"arrays": 2}, {"arrays": 3}]
    names = ("alt", "act")

    def setup(self, s, cfg):
        n, ts, act, f = s.int("scans", 1, 2**31), add(s.int("ts1", 1, 2**31), 1), add(s.int("act1", 1, 2**31), 1), s.int("factor", 1, 2**31)
        items = tuple(DataArray(ties(s, n, ts, act, "ties%d" % k), self.names) for k in range(cfg["arrays"]))
        self.sizes = n, ts, act, f
        return {"data_on_tie_points": s.ex.mklist(items, s.st), "scan_alt_tie_points": ts, "tie_points_factor": f}

    def matches(self, c):
        its = c.a.data_on_tie_points
        its = list(its) if isinstance(its, tuple) else c.st.heap.get(getattr(its, "id", None))
        if not isinstance(its, list) or not its or any(not isinstance(x, DataArray) or not isinstance(x.data, View) or x.data.ndim != 2 or x.coords for x in its):
            return None
        d = its[0]
        if any(x.dims != d.dims or len(set(x.dims)) != 2 for x in its):
            return None
        ts, act = c.a.scan_alt_tie_points, d.data.shape[1]
        if not core.is_int(ts) or not core.is_int(c.a.tie_points_factor):
            return None
        # the number of scans, where the extent shows it
        q = idiv(d.data.shape[0], ts, c.st.pc + [cmp(">", ts, 0)])
        if any(core.decide(eq(x.data.shape[k], m), c.st.pc) is not True for x in its for k, m in ((0, mul(q, ts)), (1, act))):
            return None
        self.sizes = q, ts, act, c.a.tie_points_factor
        return {"arrays": len(its)}

    def spec(self, c):
        n, ts, act, f = self.sizes
        c.require(cmp(">=", ts, 2), "two tie points per scan")
        c.require(cmp(">=", n, 1), "one scan")
        c.require(cmp(">=", act, 2), "two tie points across")
        c.require(cmp(">=", f, 1), "a factor")
        its = c.a.data_on_tie_points
        its = list(its) if isinstance(its, tuple) else c.st.heap[its.id]
        out = []
        for d in its:
            fx = bilinear_in_scan(c.reader(d.data), ts, f)
            r = c.array([mul(n, mul(sub(ts, 1), f)), mul(sub(act, 1), f)], d.data.dtype, fx)
            r.radix = {0: [n, sub(ts, 1), f], 1: [sub(act, 1), f]}
            out.append(Labelled(r, d.dims))
        c.returns(c.ex.mklist(out, c.st))


class InterpolationApi(Interpolation):
    level = "api"

    def matches(self, c):
        return None


class Rejects(Contract):
    """What is not a stack of whole scans of equally named arrays of one shape is rejected."""
    mod, qual = VI, "tie_points_interpolation"
    level = "api"
    configs = ([{"arrays": n, "bad": b} for n, b in ((1, "rows"), (2, "rows"), (2, "shape"), (3, "shape"))] +
               [{"arrays": 2, "bad": ("act", "alt")}, {"arrays": 2, "bad": ("alt", "x")}, {"arrays": 2, "bad": ("x", "act")}, {"arrays": 3, "bad": ("x", "y")},
                {"arrays": 3, "bad": ("act", "alt")}])

    def setup(self, s, cfg):
        ts, act, f = s.int("ts", 2, 2**31), s.int("act", 2, 2**31), s.int("factor", 1, 2**31)
        bad = cfg["bad"]
        rows = s.int("rows", 1, 2**31) if bad == "rows" else mul(s.int("scans", 1, 2**31), ts)
        dims = [("alt", "act")] * (cfg["arrays"] - 1) + [bad if isinstance(bad, tuple) else ("alt", "act")]
        shapes = [[rows, act]] * cfg["arrays"]
        self.cond = True
        if bad == "rows":
            self.cond = cmp("!=", Z(rows) % ts, 0)
        if bad == "shape":
            shapes = shapes[:-1] + [[s.int("rows2", 1, 2**31), s.int("act2", 1, 2**31)]]
            self.cond = bor(cmp("!=", rows, shapes[-1][0]), cmp("!=", act, shapes[-1][1]))
        items = tuple(DataArray(s.array("ties%d" % k, shapes[k], kind="nd", contig=None), dims[k]) for k in range(cfg["arrays"]))
        return {"data_on_tie_points": s.ex.mklist(items, s.st), "scan_alt_tie_points": ts, "tie_points_factor": f}

    def spec(self, c):
        c.require(self.cond, "the arrays are to be rejected")
        c.raises(True, "ValueError")


def xyz_of(lon, lat, k):
    lo, la = deg2rad(lon), deg2rad(lat)
    return mul(R_VII, mul(cos(la), cos(lo)) if k == 0 else mul(cos(la), sin(lo)) if k == 1 else sin(la))


def vlat_of(x, y, z, thr=F(4, 5)):
    t = mul(thr, R_VII)
    a = sub(F(90), rad2deg(acos(div(z, R_VII))))
    b = mul(sign(z), sub(F(90), rad2deg(asin(div(sqrt(add(mul(x, x), mul(y, y))), R_VII)))))
    return ite(band(cmp("<", z, t), cmp(">", z, neg(t))), a, b)


class GeoInterpolation(Contract):
    mod, qual = VI, "tie_points_geo_interpolation"
    level = "api"
    names = ("alt", "act")
    configs = [{"thresholds": "default"}, {"thresholds": "given"}]

    def setup(self, s, cfg):
        n, ts, act, f = s.int("scans", 1, 2**31), add(s.int("ts1", 1, 2**31), 1), add(s.int("act1", 1, 2**31), 1), s.int("factor", 1, 2**31)
        self.sizes = n, ts, act, f
        r = {"longitude": DataArray(ties(s, n, ts, act, "lon"), self.names), "latitude": DataArray(ties(s, n, ts, act, "lat"), self.names),
             "scan_alt_tie_points": ts, "tie_points_factor": f}
        if cfg["thresholds"] == "given":
            r["lat_threshold_use_cartesian"], r["z_threshold_use_xy"] = s.real("latitude_threshold"), s.real("z_threshold")
        return r

    def spec(self, c):
        n, ts, act, f = self.sizes
        lon, lat = c.a.longitude.data, c.a.latitude.data
        lo, la = c.reader(lon), c.reader(lat)
        top, thr = c.a.get("lat_threshold_use_cartesian", F(60)), c.a.get("z_threshold_use_xy", F(4, 5))
        high = extreme(c.ex, c.st, c.array(lat.shape, "FT", lambda st, i, j: absval(la(st, i, j))), "max")
        span = sub(extreme(c.ex, c.st, lon, "max"), extreme(c.ex, c.st, lon, "min"))
        cart = bor(cmp(">", high, top), cmp(">", span, F(180)))
        xyz = [bilinear_in_scan(lambda st, i, j, k=k: core.let(xyz_of(lo(st, i, j), la(st, i, j), k), 0), ts, f) for k in range(3)]
        direct = [bilinear_in_scan(r, ts, f) for r in (lo, la)]

        def result(k):
            def fn(st, i, j):
                d = core.decide(cart, st.pc)
                if d is not True:
                    v = direct[k](st, i, j)
                if d is not False:
                    p = [g(st, i, j) for g in xyz]
                    w = rad2deg(atan2(p[1], p[0])) if k == 0 else vlat_of(*p, thr)
                return v if d is False else w if d is True else ite(cart, w, v)
            r = c.array([mul(n, mul(sub(ts, 1), f)), mul(sub(act, 1), f)], "FT", fn)
            r.radix = {0: [n, sub(ts, 1), f], 1: [sub(act, 1), f]}
            return Labelled(r, self.names)
        c.returns((result(0), result(1)))


class GeoRejects(Contract):
    mod, qual = VI, "tie_points_geo_interpolation"
    level = "api"

    def setup(self, s, cfg):
        a = [s.int(x, 1, 2**31) for x in ("rows", "act", "rows2", "act2")]
        return {"longitude": DataArray(s.array("lon", a[:2], kind="nd", contig=None), ("alt", "act")),
                "latitude": DataArray(s.array("lat", a[2:], kind="nd", contig=None), ("alt", "act")),
                "scan_alt_tie_points": s.int("ts", 1, 2**31), "tie_points_factor": s.int("factor", 1, 2**31)}

    def spec(self, c):
        x, y = c.a.longitude.data.shape, c.a.latitude.data.shape
        c.require(bor(cmp("!=", x[0], y[0]), cmp("!=", x[1], y[1])), "differing shapes")
        c.raises(True, "ValueError")


INTERNAL = [Interpolation()]
API = [InterpolationApi(), Rejects()]
GEO = [GeoInterpolation(), GeoRejects()]
