"""Contracts of the conversions between longitude/latitude and Cartesian coordinates, and their round trip."""
from fractions import Fraction as F

import contract
import core
from core import PI, Z, add, band, bnot, bor, cmp, div, eq, fresh, ite, mul, neg, sub, sym
from contract import ANY, Contract, SpecError
from mem import View
from modis import MU, LonLat2Xyz, Xyz2LonLat, real
from npmodel import R, acos, asin, atan2, cos, deg2rad, rad2deg, sign, sin, sqrt
from vii import VI
from xrmodel import DataArray

GI = "geotiepoints.geointerpolator"
R_GEO, R_VII = F(6370997), F("6371008.7714")
HALF = div(PI, F(2))


# ------------------------------------------------------------------ the specification
def forward(lon, lat, k, radius):
    lo, la = core.let(deg2rad(lon), 0), core.let(deg2rad(lat), 0)
    return mul(real(radius), mul(cos(la), cos(lo)) if k == 0 else mul(cos(la), sin(lo)) if k == 1 else sin(la))


def longitude(x, y, z):
    return rad2deg(atan2(y, x))


def latitude(x, y, z, radius, thr, low):
    """From z alone where |z| is below the threshold, otherwise from the distance to the axis, signed like z."""
    t = mul(real(thr), real(radius))
    flat = band(low, cmp("<", z, t), cmp(">", z, neg(t)))
    a = sub(F(90), rad2deg(acos(div(z, radius))))
    b = mul(sign(z), sub(F(90), rad2deg(asin(div(sqrt(add(mul(x, x), mul(y, y))), radius)))))
    return ite(flat, a, b)


# ------------------------------------------------------------------ facts of real trigonometry (lemmas/Trig.lean proves them)
def trig(lon, lat):
    """Instances for one position (radians), -pi < lon <= pi, -pi/2 <= lat <= pi/2."""
    return [cmp(">", PI, F(3)), cmp("<", PI, F(4)),
            eq(add(mul(cos(lon), cos(lon)), mul(sin(lon), sin(lon))), F(1)),
            eq(add(mul(cos(lat), cos(lat)), mul(sin(lat), sin(lat))), F(1)),
            cmp(">=", cos(lat), F(0)),
            bor(cmp(">", cos(lat), F(0)), eq(lat, HALF), eq(lat, neg(HALF))),
            eq(acos(sin(lat)), sub(HALF, lat)),
            eq(asin(cos(lat)), sub(HALF, ite(cmp(">=", lat, F(0)), lat, neg(lat)))),
            bor(cmp("<=", lat, F(0)), cmp(">", sin(lat), F(0))),
            bor(cmp(">=", lat, F(0)), cmp("<", sin(lat), F(0))),
            bor(bnot(eq(lat, F(0))), eq(sin(lat), F(0)))]


def polar(r, lon):
    """atan2(r sin a, r cos a) = a for r > 0 and -pi < a <= pi"""
    return bor(cmp("<=", r, F(0)), eq(atan2(mul(r, sin(lon)), mul(r, cos(lon))), lon))


TRUSTED = ["facts of real trigonometry: sin^2 + cos^2 = 1, signs of sin and cos on a half turn, acos(sin a) = pi/2 - a and asin(cos a) = pi/2 - |a| for |a| <= pi/2, "
           "atan2(r sin a, r cos a) = a for r > 0 and -pi < a <= pi, 3 < pi < 4: proved in lemmas/Trig.lean (Lean with Mathlib), atan2 being Complex.arg; their transcription as hypotheses is by hand"]


# ------------------------------------------------------------------ the Python functions
class _Elementwise(Contract):
    level = "api"
    configs = [{"rank": r, "args": a} for r in (0, 1, 2) for a in ("default", "given")]
    inputs = ()
    kind = "nd"

    def setup(self, s, cfg):
        shape = [s.int("n%d" % d, 0, 2**31) for d in range(cfg["rank"])]
        r = {}
        for n in self.inputs:
            if cfg["rank"] == 0:
                r[n] = s.real(n)
            else:
                v = s.array(n, shape, kind="nd", contig=None)
                r[n] = DataArray(v, ("a", "b")[:cfg["rank"]]) if self.kind == "xr" else v
        self.shape = shape
        self.more(s, cfg, r)
        return r

    def more(self, s, cfg, r):
        pass

    def elements(self, c):
        out = []
        for n in self.inputs:
            v = c.a[n]
            v = v.data if isinstance(v, DataArray) else v
            out.append(c.reader(v) if isinstance(v, View) else (lambda st, v=v: v))
        return out

    def result(self, c, fn):
        if not self.shape:
            return fn(c.st)
        v = c.array(self.shape, "FT", fn)
        if self.kind == "xr":
            from vii import Labelled
            return Labelled(v, ("a", "b")[:len(self.shape)])
        return v


class Forward(_Elementwise):
    def __init__(self, mod, qual, inputs, radius, kind="nd", given=None):
        self.mod, self.qual, self.inputs, self.radius, self.kind, self.given = mod, qual, inputs, radius, kind, given
        self.configs = [x for x in self.configs if (given or x["args"] == "default") and (kind != "xr" or x["rank"])]

    def more(self, s, cfg, r):
        if cfg["args"] == "given":
            r[self.given] = s.real("radius")

    def spec(self, c):
        radius = c.a.get(self.given, self.radius)
        if sym(radius):
            c.require(cmp(">", radius, F(0)), "a radius")
        lon, lat = self.elements(c)
        c.returns(tuple(self.result(c, lambda st, *p, k=k: forward(lon(st, *p), lat(st, *p), k, radius)) for k in range(3)))


class Backward(_Elementwise):
    def __init__(self, mod, qual, inputs, radius, thr, kind="nd"):
        self.mod, self.qual, self.inputs, self.radius, self.thr, self.kind = mod, qual, inputs, radius, thr, kind
        self.configs = [x for x in self.configs if kind != "xr" or x["rank"]]
        if mod == GI:
            self.configs = self.configs + [{"rank": r, "args": "high"} for r in (0, 2)]

    def more(self, s, cfg, r):
        if cfg["args"] == "given":
            r[self.thr] = s.real("thr")
            if self.mod == GI:
                r["radius"] = s.real("radius")
        if cfg["args"] == "high":
            r["low_lat_z"] = False

    def spec(self, c):
        radius, thr, low = c.a.get("radius", self.radius), c.a.get(self.thr, F(4, 5)), c.a.get("low_lat_z", True)
        if sym(radius):
            c.require(cmp(">", radius, F(0)), "a radius")
        xyz = self.elements(c)
        c.returns((self.result(c, lambda st, *p: longitude(*[g(st, *p) for g in xyz])),
                   self.result(c, lambda st, *p: latitude(*[g(st, *p) for g in xyz], radius, thr, low))))


def same_position(ex, lon, lat, glon, glat, radius, s2, node, what=("the longitude comes back", "the latitude comes back")):
    """glon, glat (computed from the Cartesian coordinates of lon, lat) are the same position."""
    lo, la = deg2rad(lon), deg2rad(lat)
    r = real(radius)
    s2.pc += [core.norm(core.unfold_all(Z(x))) for x in trig(lo, la) + [polar(mul(r, cos(la)), lo)]]
    x, y = (mul(r, mul(cos(la), f(lo))) for f in (cos, sin))
    s2.pc.append(eq(mul(PI, core.inv(PI)), F(1)))
    ss = add(mul(x, x), mul(y, y))
    goal = eq(sqrt(ss), mul(r, cos(la)))
    q = core.norm(Z(ss))
    root = sqrt(ss)
    ex.oblige("lemma", eq(ss, mul(mul(r, cos(la)), mul(r, cos(la)))), s2, node, "distance from the axis, squared")
    # r * r = s * s and both not negative
    s3 = s2.copy()
    s3.pc += [eq(mul(root, root), mul(mul(r, cos(la)), mul(r, cos(la)))), cmp(">=", root, F(0))]
    ex.oblige("lemma", goal, s3, node, "distance from the axis")
    s2.pc.append(goal)
    s4 = s2.copy()
    s4.pc += [bnot(eq(lat, F(90))), bnot(eq(lat, F(-90)))]
    ex.oblige("post", eq(glon, lon), s4, node, what[0])
    ex.oblige("post", eq(glat, lat), s2, node, what[1])


# ------------------------------------------------------------------ round trip
class RoundTrip(Contract):
    """Forward and back is the identity: longitude except at the poles, latitude everywhere."""
    level = "api"

    def __init__(self, mod, fwd, bwd, radius, kind="nd"):
        self.mod, self.qual, self.bwd, self.radius, self.kind = mod, fwd, bwd, radius, kind

    def setup(self, s, cfg):
        n, m = s.int("n", 0, 2**31), s.int("m", 0, 2**31)
        self.ll = [s.array(x, [n, m], kind="mv" if self.kind == "mv" else "nd", contig=self.kind == "mv" or None) for x in ("lon", "lat")]
        self.n = n, m
        if self.kind == "mv":
            return {"lons": self.ll[0], "lats": self.ll[1], "_xyz": s.array("xyz", [n, m, 3], uninit=True),
                    "_lon": s.array("lon2", [n, m], uninit=True), "_lat": s.array("lat2", [n, m], uninit=True)}
        a = [DataArray(v, ("a", "b")) for v in self.ll] if self.kind == "xr" else self.ll
        return {"lons": a[0], "lats": a[1]}

    def spec(self, c):
        c.returns(ANY)
        for k in ("_xyz", "_lon", "_lat"):
            if k in c.a:
                c.havoc.append(c.a[k])

    def run(self, ex, fv, args, st):
        from exec import Outcome
        fwd, bwd = (ex.resolve_global(self.mod, q, st) for q in (self.qual, self.bwd))
        lon, lat = args["lons"], args["lats"]
        from exec import FunCtx
        ex.funs.append(FunCtx(fv))
        try:
            if self.kind == "mv":
                ex.call(fwd, [lon, lat, args["_xyz"]], {}, st, fv.node)
                ex.call(bwd, [args["_xyz"], args["_lon"], args["_lat"]], {}, st, fv.node)
                r = (args["_lon"], args["_lat"])
            else:
                xyz = ex.call(fwd, [lon, lat], {}, st, fv.node)
                r = ex.call(bwd, list(ex.items(xyz, st)), {}, st, fv.node)
        finally:
            ex.funs.pop()
        return [Outcome("return", st, r)]

    def check_return(self, ex, c, val, st, node):
        n, m = self.n
        val = [v.data if isinstance(v, DataArray) else v for v in ex.items(val, st)]
        if len(val) != 2 or not all(isinstance(v, View) and v.ndim == 2 for v in val):
            ex.oblige("type", False, st, node, "two arrays")
            return
        for v in val:
            for k in range(2):
                ex.oblige("shape", eq(v.shape[k], self.n[k]), st, node, "the shape of the arrays is kept")
        i, j = fresh("i"), fresh("j")
        s2 = st.copy()
        s2.pc += [cmp("<=", 0, i), cmp("<", i, n), cmp("<=", 0, j), cmp("<", j, m)]
        lon, lat = (ex.read(ex.freeze(v, c.st), [i, j], s2, node, check=False) for v in self.ll)
        s2.pc += [cmp("<", F(-180), lon), cmp("<=", lon, F(180)), cmp("<=", F(-90), lat), cmp("<=", lat, F(90))]
        glon, glat = (core.norm(core.unfold_all(Z(ex.read(v, [i, j], s2, node, check=False)))) for v in val)
        same_position(ex, lon, lat, glon, glat, self.radius, s2, node)


INTERNAL = [LonLat2Xyz(), Xyz2LonLat()]
FUNCTIONS = [Forward(GI, "lonlat2xyz", ("lons", "lats"), R_GEO, given="radius"), Backward(GI, "xyz2lonlat", ("x__", "y__", "z__"), R_GEO, "thr"),
             Forward(VI, "_lonlat2xyz", ("lons", "lats"), R_VII, "xr"), Backward(VI, "_xyz2lonlat", ("x_coords", "y_coords", "z_coords"), R_VII, "z_threshold_use_xy", "xr")]
TRIPS = [RoundTrip(GI, "lonlat2xyz", "xyz2lonlat", R_GEO), RoundTrip(VI, "_lonlat2xyz", "_xyz2lonlat", R_VII, "xr"),
         RoundTrip(MU, "lonlat2xyz", "xyz2lonlat", R_GEO, "mv")]
API = FUNCTIONS + TRIPS


# ------------------------------------------------------------------ points inside the sphere are within the functions' domains
_ball = [0]


def ball(s, names, shape, radius, kind="nd", contig=None, grow=F(1)):
    """Three arrays whose elements are points within the radius (its square: times `grow`)."""
    _ball[0] += 1
    r = real(radius)
    out = [s.array("%s_in%d" % (n, _ball[0]), shape, kind=kind, contig=contig) for n in names]
    fs = [v.fn for v in out]

    def fact(x):
        p = [f(*x.children()) for f in fs]
        return [Z(cmp("<=", add(add(mul(p[0], p[0]), mul(p[1], p[1])), mul(p[2], p[2])), grow * r * r))]
    for x in fs:
        core.INPUT.add(x.name())
    core._facts_for[fs[0].name()] = fact
    core._facts_for[fs[1].name()] = fact
    core._facts_for[fs[2].name()] = fact
    return out


class Inside(Contract):
    level = "api"
    configs = [{"thr": "default"}, {"thr": "given"}]

    def __init__(self, mod, qual, inputs, thr, radius, kind="nd"):
        self.mod, self.qual, self.inputs, self.thr, self.radius, self.kind = mod, qual, inputs, thr, radius, kind

    def setup(self, s, cfg):
        shape = [s.int("n", 0, 2**31), s.int("m", 0, 2**31)]
        p = ball(s, "xyz", shape, self.radius)
        r = {n: DataArray(v, ("a", "b")) if self.kind == "xr" else v for n, v in zip(self.inputs, p)}
        if cfg["thr"] == "given":
            r[self.thr] = s.real("thr")
        return r

    def spec(self, c):
        c.returns(ANY)


class InsideCompiled(Contract):
    mod, qual = MU, "xyz2lonlat"
    level = "api"
    configs = [{"low": True}, {"low": False}]

    def setup(self, s, cfg):
        n, m = s.int("n", 0, 2**31), s.int("m", 0, 2**31)
        _ball[0] += 1
        v = s.array("xyz_in%d" % _ball[0], [n, m, 3])
        f = v.fn

        def fact(x):
            i, j, _ = x.children()
            p = [f(i, j, core.Z(k)) for k in range(3)]
            return [Z(cmp("<=", add(add(mul(p[0], p[0]), mul(p[1], p[1])), mul(p[2], p[2])), mul(R_GEO, R_GEO)))]
        core._facts_for[f.name()] = fact
        core.INPUT.add(f.name())
        return {"xyz": v, "lons": s.array("lon", [n, m], uninit=True), "lats": s.array("lat", [n, m], uninit=True), "low_lat_z": cfg["low"], "thr": s.real("thr")}

    def spec(self, c):
        c.havoc += [c.a.lons, c.a.lats]
        for v in (c.a.lons, c.a.lats):
            for d in range(2):
                c.require(cmp("==", c.a.xyz.shape[d], v.shape[d]), "shape")
        c.returns(ANY)


DOMAIN = [Inside(GI, "xyz2lonlat", ("x__", "y__", "z__"), "thr", R_GEO), Inside(VI, "_xyz2lonlat", ("x_coords", "y_coords", "z_coords"), "z_threshold_use_xy", R_VII, "xr"),
          InsideCompiled()]
