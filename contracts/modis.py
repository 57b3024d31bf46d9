"""Contracts of the MODIS zenith-angle interpolation (_modis_interpolator.pyx, _modis_utils.pyx)."""
from fractions import Fraction

import z3

import core
from core import PI, Z, add, band, bnot, bor, cmp, div, eq, inv, ite, mul, neg, norm, sub, sym
from contract import ANY, Contract, Ctx, SpecError
from npmodel import acos, asin, atan2, cos, deg2rad, rad2deg, sign, sin, sqrt
from mem import View, idiv

MI = "geotiepoints._modis_interpolator"
MU = "geotiepoints._modis_utils"
F = Fraction
R_KM, H_KM = F("6370.997"), F(709)
R_M = F(6370997)
SYMMETRIC = F("1e-5")     # angles at the Earth's centre closer than this count as equal

CONFIGS = [{"coarse": c, "fine": f, "width": w} for c, f, w in
           [(1000, 500, 1354), (1000, 250, 1354), (5000, 1000, 271), (5000, 1000, 270), (5000, 500, 271), (5000, 500, 270), (5000, 250, 271), (5000, 250, 270)]]


def attrs(cfg):
    f1 = 1000 // cfg["fine"]
    p = cfg["coarse"] // 1000
    f = f1 * p
    return {"_coarse_scan_length": 10 if cfg["coarse"] == 1000 else 2, "_coarse_scan_width": cfg["width"], "_coarse_pixels_per_1km": p,
            "_fine_pixels_per_coarse_pixel": f, "_fine_scan_width": 1354 * f1, "_fine_scan_length": 0, "_coarse_resolution": cfg["coarse"],
            "_fine_resolution": cfg["fine"], "_factor_5km": 2 * f1}


KEYS = ["_coarse_scan_length", "_coarse_scan_width", "_coarse_pixels_per_1km", "_fine_pixels_per_coarse_pixel", "_fine_scan_width", "_factor_5km"]


def config_of(c, obj):
    vals = {k: c.attr(obj, k) for k in KEYS}
    for cfg in CONFIGS:
        a = attrs(cfg)
        if all(not sym(vals[k]) and vals[k] == a[k] for k in KEYS):
            return cfg
    return None


class G:
    """Geometry of a configuration."""

    def __init__(self, cfg):
        a = attrs(cfg)
        self.km1 = cfg["coarse"] == 1000
        self.csl, self.W, self.p = a["_coarse_scan_length"], cfg["width"], a["_coarse_pixels_per_1km"]
        self.f, self.fw, self.f1 = a["_fine_pixels_per_coarse_pixel"], a["_fine_scan_width"], 1000 // cfg["fine"]
        self.rows = self.csl * self.f
        self.zr, self.zc = self.csl - 1, self.W - 1

    def zone_row(self, i):
        if not self.km1:
            return 0
        z = floordiv(sub(i, self.f // 2), self.f)
        return clamp(z, 0, 8)

    def zone_col(self, j):
        if self.km1:
            return clamp(floordiv(j, self.f), 0, self.W - 2)
        return clamp(floordiv(sub(j, 2 * self.f1), self.f), 0, self.W - 2)

    def s_s(self, j):
        if self.km1:
            return sub(div(real(j), F(self.f)), real(self.zone_col(j)))
        return sub(div(sub(real(j), F(2 * self.f1)), F(self.f)), real(self.zone_col(j)))

    def s_t(self, i):
        if self.km1:
            return sub(sub(div(add(real(i), F(1, 2)), F(self.f)), F(1, 2)), real(self.zone_row(i)))
        return div(sub(real(i), F(5 * self.f1, 2) - F(1, 2)), F(self.f))


def real(x):
    return Z(x, True) if sym(x) else F(x)


def floordiv(a, b):
    return a // b if not sym(a) else Z(a) / Z(b)


def clamp(x, lo, hi):
    return ite(cmp("<", x, lo), lo, ite(cmp(">", x, hi), hi, x))


# ------------------------------------------------------------------ the published coefficients
def phi_(z):
    return asin(div(mul(R_KM, sin(z)), R_KM + H_KM))


def zeta_(phi):
    return asin(div(mul(R_KM + H_KM, sin(phi)), R_KM))


def coefficient_parts(sa, sb, width):
    za, zb = core.let(deg2rad(sa), 0), core.let(deg2rad(sb), 0)
    pa, pb = core.let(phi_(za), 0), core.let(phi_(zb), 0)
    ta, tb = core.let(sub(za, pa), 0), core.let(sub(zb, pb), 0)
    p = core.let(div(add(pa, pb), F(2)), 0)
    zeta = core.let(zeta_(p), 0)
    t = core.let(sub(zeta, p), 0)
    gap = sub(ta, tb)
    same = cmp("<", ite(cmp(">=", gap, F(0)), gap, neg(gap)), SYMMETRIC)
    den = core.let(ite(same, add(ta, tb), gap), 0)
    nil = eq(den, F(0))
    c_exp = ite(nil, F(0), mul(F(4), div(sub(div(add(ta, tb), F(2)), t), den)))
    beta2 = div(real(width), 2 * H_KM)
    d = core.let(mul(sub(mul(F(R_KM + H_KM) / R_KM, cos(p)), cos(zeta)), beta2), 0)
    e = core.let(sub(cos(zeta), sqrt(sub(mul(cos(zeta), cos(zeta)), mul(d, d)))), 0)
    c_ali = ite(nil, F(0), div(mul(mul(F(4), e), sin(zeta)), den))
    return {"za": za, "zb": zb, "pa": pa, "pb": pb, "ta": ta, "tb": tb, "p": p, "zeta": zeta, "t": t, "den": den, "d": d, "e": e,
            "c_exp": core.let(c_exp, 0), "c_ali": core.let(c_ali, 0)}


def coefficients(sa, sb, width):
    """(c_exp, c_ali) of a cell from the satellite zenith angles (degrees) of its left and right tie points."""
    q = coefficient_parts(sa, sb, width)
    return q["c_exp"], q["c_ali"]


class ExpansionAlignment(Contract):
    mod, qual = MI, "_compute_expansion_alignment"
    configs = [{}]

    def setup(self, s, cfg):
        n, m = s.int("n", 0, 2**31), s.int("m", 0, 2**31)
        return {"satz_a": s.array("satz_a", [n, m], contig=False), "satz_b": s.array("satz_b", [n, m], contig=False), "scan_width": s.int("scan_width", 1, 5),
                "c_expansion": s.array("c_expansion", [n, m], uninit=True), "c_alignment": s.array("c_alignment", [n, m], uninit=True)}

    def spec(self, c):
        a, b = c.a.satz_a, c.a.satz_b
        for v in (b, c.a.c_expansion, c.a.c_alignment):
            for d in range(2):
                c.require(cmp("<=", a.shape[d], v.shape[d]), "the arrays are at least as large as satz_a")
        ra, rb = c.reader(a), c.reader(b)
        w = c.a.scan_width
        where = [(0, a.shape[0]), (0, a.shape[1])]
        c.assign(c.a.c_expansion, lambda st, i, j: coefficients(ra(st, i, j), rb(st, i, j), w)[0], where)
        c.assign(c.a.c_alignment, lambda st, i, j: coefficients(ra(st, i, j), rb(st, i, j), w)[1], where)


class _Method(Contract):
    mod = MI
    which = None

    @property
    def configs(self):
        return [c for c in CONFIGS if self.which is None or c["coarse"] == self.which]

    def matches(self, c):
        cfg = config_of(c, c.a.self)
        if cfg is None or (self.which is not None and cfg["coarse"] != self.which):
            return None
        return cfg


class ExpandTiepoints(_Method):
    qual = "MODISInterpolator._expand_tiepoint_array"

    def setup(self, s, cfg):
        g = G(cfg)
        return {"self": s.inst(MI, "MODISInterpolator", attrs(cfg)), "input_arr": s.array("input_arr", [g.zr, g.zc], contig=False),
                "output_arr": s.array("output_arr", [g.rows, g.fw], uninit=True)}

    def spec(self, c):
        g = G(c.cfg)
        i, o = c.a.input_arr, c.a.output_arr
        for d, n in enumerate((g.zr, g.zc)):
            c.require(eq(i.shape[d], n), "the input has one value per cell")
        for d, n in enumerate((g.rows, g.fw)):
            c.require(eq(o.shape[d], n), "the output has one value per fine pixel")
        r = c.reader(i)
        c.assign(o, lambda st, i, j: r(st, g.zone_row(i), g.zone_col(j)))


class GetAtrackAscan(_Method):
    qual = "MODISInterpolator._get_atrack_ascan"

    def setup(self, s, cfg):
        g = G(cfg)
        z, f = [g.zr, g.zc], [g.rows, g.fw]
        return {"self": s.inst(MI, "MODISInterpolator", attrs(cfg)), "satz": s.array("satz", [g.csl, g.W]), "x": s.array("x", [g.fw]), "y": s.array("y", [g.rows]),
                "c_exp_coarse": s.array("c_exp_coarse", z, uninit=True), "c_ali_coarse": s.array("c_ali_coarse", z, uninit=True),
                "c_exp_fine": s.array("c_exp_fine", f, uninit=True), "c_ali_fine": s.array("c_ali_fine", f, uninit=True),
                "a_track": s.array("a_track", f, uninit=True), "a_scan": s.array("a_scan", f, uninit=True)}

    def spec(self, c):
        g = G(c.cfg)
        shapes = {"satz": (g.csl, g.W), "x": (g.fw,), "y": (g.rows,), "c_exp_coarse": (g.zr, g.zc), "c_ali_coarse": (g.zr, g.zc), "c_exp_fine": (g.rows, g.fw),
                  "c_ali_fine": (g.rows, g.fw), "a_track": (g.rows, g.fw), "a_scan": (g.rows, g.fw)}
        need(c, shapes)
        satz, x, y = c.reader(c.a.satz), c.reader(c.a.x), c.reader(c.a.y)

        def coef(st, zi, zj):
            return coefficients(satz(st, zi, zj), satz(st, zi, add(zj, 1)), g.p)

        def at(st, i, j):
            return div(y(st, i), F(g.f))

        def asc(st, i, j):
            ce, ca = coef(st, g.zone_row(i), g.zone_col(j))
            ss, tt = div(x(st, j), F(g.f)), div(y(st, i), F(g.f))
            return scan_weight(ss, tt, ce, ca)
        c.assign(c.a.c_exp_coarse, lambda st, i, j: coef(st, i, j)[0])
        c.assign(c.a.c_ali_coarse, lambda st, i, j: coef(st, i, j)[1])
        c.assign(c.a.c_exp_fine, lambda st, i, j: coef(st, g.zone_row(i), g.zone_col(j))[0])
        c.assign(c.a.c_ali_fine, lambda st, i, j: coef(st, g.zone_row(i), g.zone_col(j))[1])
        c.assign(c.a.a_track, at)
        c.assign(c.a.a_scan, asc)


def scan_weight(ss, tt, ce, ca):
    one = F(1)
    return add(ss, add(mul(mul(ss, sub(one, ss)), ce), mul(mul(tt, sub(one, tt)), ca)))


def need(c, shapes):
    for n, sh in shapes.items():
        v = c.a[n] if n in c.a else None
        if v is None:
            raise SpecError(n)
        if v.ndim != len(sh):
            raise SpecError(n)
        for d, k in enumerate(sh):
            c.require(eq(v.shape[d], k), "extent %d of %s" % (d, n))


def bilinear(at, asc, a, b, cc, d):
    """a upper left, b upper right, cc lower right, d lower left"""
    one = F(1)
    s1 = add(mul(sub(one, asc), a), mul(asc, b))
    s2 = add(mul(sub(one, asc), d), mul(asc, cc))
    return add(mul(sub(one, at), s1), mul(at, s2))


class ComputeFineXyz(_Method):
    qual = "MODISInterpolator._compute_fine_xyz"

    def setup(self, s, cfg):
        g = G(cfg)
        f = [g.rows, g.fw]
        r = {"self": s.inst(MI, "MODISInterpolator", attrs(cfg)), "a_track_view": s.array("a_track", f), "a_scan_view": s.array("a_scan", f),
             "xyz_view": s.array("xyz", [g.csl, g.W, 3])}
        for k in "abcd":
            r["data_tiepoint_%s_view" % k] = s.array("tp_" + k, f, uninit=True)
        r["xyz_comp_view"] = s.array("xyz_comp", f + [3], uninit=True)
        return r

    def spec(self, c):
        g = G(c.cfg)
        f = (g.rows, g.fw)
        need(c, {"a_track_view": f, "a_scan_view": f, "xyz_view": (g.csl, g.W, 3), "xyz_comp_view": f + (3,), **{"data_tiepoint_%s_view" % k: f for k in "abcd"}})
        at, asc, xyz = c.reader(c.a.a_track_view), c.reader(c.a.a_scan_view), c.reader(c.a.xyz_view)
        for k, (di, dj) in zip("abcd", [(0, 0), (0, 1), (1, 1), (1, 0)]):
            c.assign(c.a["data_tiepoint_%s_view" % k], lambda st, i, j, di=di, dj=dj: xyz(st, add(g.zone_row(i), di), add(g.zone_col(j), dj), 2))

        def fine(st, i, j, k):
            zi, zj = g.zone_row(i), g.zone_col(j)
            return bilinear(at(st, i, j), asc(st, i, j), xyz(st, zi, zj, k), xyz(st, zi, add(zj, 1), k), xyz(st, add(zi, 1), add(zj, 1), k), xyz(st, add(zi, 1), zj, k))
        c.assign(c.a.xyz_comp_view, fine)


# ------------------------------------------------------------------ coordinates
def to_xyz(lon, lat, k):
    lo, la = core.let(deg2rad(lon), 0), core.let(deg2rad(lat), 0)
    v = [mul(mul(R_M, cos(la)), cos(lo)), mul(mul(R_M, cos(la)), sin(lo)), mul(R_M, sin(la))]
    if not sym(k):
        return v[k]
    return ite(eq(k, 0), v[0], ite(eq(k, 1), v[1], v[2]))


def lon_of(x, y, z):
    return rad2deg(atan2(y, x))


def lat_of(x, y, z, thr=F(4, 5), low=True):
    lowlat = band(cmp("<", z, mul(thr, R_M)), cmp(">", z, neg(mul(thr, R_M))))
    a = sub(F(90), rad2deg(acos(div(z, R_M))))
    b = mul(sign(z), sub(F(90), rad2deg(asin(div(sqrt(add(mul(x, x), mul(y, y))), R_M)))))
    return ite(band(low, lowlat), a, b)


class LonLat2Xyz(Contract):
    mod, qual = MU, "lonlat2xyz"

    def setup(self, s, cfg):
        n, m = s.int("n", 0, 2**31), s.int("m", 0, 2**31)
        return {"lons": s.array("lon", [n, m]), "lats": s.array("lat", [n, m]), "xyz": s.array("xyz", [n, m, 3], uninit=True)}

    def spec(self, c):
        n = c.a.lons.shape
        for v in (c.a.lats, c.a.xyz):
            for d in range(2):
                c.require(cmp("==", n[d], v.shape[d]), "the arrays have the shape of lons")
        c.require(eq(c.a.xyz.shape[2], 3), "three components")
        lon, lat = c.reader(c.a.lons), c.reader(c.a.lats)
        c.assign(c.a.xyz, lambda st, i, j, k: to_xyz(lon(st, i, j), lat(st, i, j), k))


class Xyz2LonLat(Contract):
    mod, qual = MU, "xyz2lonlat"

    configs = [{"low": True}, {"low": False}]

    def setup(self, s, cfg):
        n, m = s.int("n", 0, 2**31), s.int("m", 0, 2**31)
        return {"xyz": s.array("xyz", [n, m, 3]), "lons": s.array("lon", [n, m], uninit=True), "lats": s.array("lat", [n, m], uninit=True),
                "low_lat_z": cfg["low"], "thr": s.real("thr")}

    def spec(self, c):
        n = c.a.xyz.shape
        for v in (c.a.lons, c.a.lats):
            for d in range(2):
                c.require(cmp("==", n[d], v.shape[d]), "the arrays have the shape of xyz")
        c.require(eq(n[2], 3), "three components")
        xyz = c.reader(c.a.xyz)
        low, thr = c.a.low_lat_z, c.a.thr
        c.assign(c.a.lons, lambda st, i, j: lon_of(*[xyz(st, i, j, k) for k in range(3)]))
        c.assign(c.a.lats, lambda st, i, j: lat_of(*[xyz(st, i, j, k) for k in range(3)], thr, low))


class GetCoords(_Method):
    """The fractional positions, times the factor, of the fine columns and rows of a scan."""
    qual = "MODISInterpolator._get_coords"

    def setup(self, s, cfg):
        return {"self": s.inst(MI, "MODISInterpolator", attrs(cfg))}

    def spec(self, c):
        g = G(c.cfg)
        x = c.array([g.fw], "f4", lambda st, j: mul(g.s_s(j), F(g.f)))
        y = c.array([g.rows], "f4", lambda st, i: mul(g.s_t(i), F(g.f)))
        c.returns((x, y))


class InterpolateScans(_Method):
    qual = "MODISInterpolator._interpolate_lons_lats"
    names = ["coarse_lons", "coarse_lats", "coarse_satz"]

    def setup(self, s, cfg):
        g = G(cfg)
        n = s.int("scans", 0, 2**31 // (g.rows * g.fw) )
        f = [g.rows, g.fw]
        r = {"self": s.inst(MI, "MODISInterpolator", attrs(cfg)), "scans": n}
        for k in self.names:
            r[k] = s.array({"coarse_lons": "lon", "coarse_lats": "lat", "coarse_satz": "satz"}[k], [mul(g.csl, n), g.W])
        r.update({"x": s.array("x", [g.fw]), "y": s.array("y", [g.rows])})
        for k in ("a_track", "a_scan", "tmp_fine_a", "tmp_fine_b", "tmp_fine_c", "tmp_fine_d"):
            r[k] = s.array(k, f, uninit=True)
        r["coarse_xyz"] = s.array("coarse_xyz", [g.csl, g.W, 3], uninit=True)
        r["fine_xyz"] = s.array("fine_xyz", f + [3], uninit=True)
        r["fine_lons"] = s.array("fine_lons", [mul(g.rows, n), g.fw], uninit=True)
        r["fine_lats"] = s.array("fine_lats", [mul(g.rows, n), g.fw], uninit=True)
        return r

    def spec(self, c):
        g = G(c.cfg)
        n = c.a.scans
        f = (g.rows, g.fw)
        sh = {k: (mul(g.csl, n), g.W) for k in self.names}
        sh.update({"x": (g.fw,), "y": (g.rows,), "coarse_xyz": (g.csl, g.W, 3), "fine_xyz": f + (3,), "fine_lons": (mul(g.rows, n), g.fw), "fine_lats": (mul(g.rows, n), g.fw)})
        sh.update({k: f for k in ("a_track", "a_scan", "tmp_fine_a", "tmp_fine_b", "tmp_fine_c", "tmp_fine_d")})
        need(c, sh)
        lon, lat, satz, x, y = [c.reader(c.a[k]) for k in ("coarse_lons", "coarse_lats", "coarse_satz", "x", "y")]
        fx = fine_position(g, lon, lat, satz, lambda st, i: div(y(st, i), F(g.f)), lambda st, j: div(x(st, j), F(g.f)))
        c.assign(c.a.fine_lons, lambda st, i, j: lon_of(*fx(st, i, j)))
        c.assign(c.a.fine_lats, lambda st, i, j: lat_of(*fx(st, i, j)))
        # work arrays: contents unspecified after the call
        c.havoc = [c.a[k] for k in ("a_track", "a_scan", "tmp_fine_a", "tmp_fine_b", "tmp_fine_c", "tmp_fine_d", "coarse_xyz", "fine_xyz")]


def fine_parts(g, lon, lat, satz, s_t, s_s, st, i, j):
    scan = idiv(i, g.rows, st.pc)
    il = sub(i, mul(scan, g.rows))
    zi, zj = add(mul(scan, g.csl), g.zone_row(il)), g.zone_col(j)
    tt, ss = core.let(s_t(st, il), 0), core.let(s_s(st, j), 0)
    q = coefficient_parts(satz(st, zi, zj), satz(st, zi, add(zj, 1)), g.p)
    asc = core.let(scan_weight(ss, tt, q["c_exp"], q["c_ali"]), 0)
    ll = [(lon(st, add(zi, di), add(zj, dj)), lat(st, add(zi, di), add(zj, dj))) for di, dj in ((0, 0), (0, 1), (1, 1), (1, 0))]
    xyz = [[core.let(to_xyz(lo, la, k), 0) for lo, la in ll] for k in range(3)]
    return {"t": tt, "s": ss, "coef": q, "a_scan": asc, "lonlat": ll, "corners": xyz, "p": [core.let(bilinear(tt, asc, *xyz[k]), 0) for k in range(3)]}


def fine_position(g, lon, lat, satz, s_t, s_s):
    """Cartesian position of fine pixel (i, j): function of the state and indices."""
    return lambda st, i, j: fine_parts(g, lon, lat, satz, s_t, s_s, st, i, j)["p"]


class Interpolate(Contract):
    """modis_*: the whole algorithm, for any number of scans."""
    mod, qual = MI, "interpolate"
    level = "api"
    configs = CONFIGS + [dict(c, partial=True) for c in CONFIGS]

    def setup(self, s, cfg):
        g = G(cfg)
        n = s.int("scans", 0, 2**31 // (g.rows * g.fw) - 1)
        sh = [mul(g.csl, n), g.W]
        if cfg.get("partial"):
            sh[0] = add(sh[0], s.int("more", 1, g.csl - 1))
        r = {"lon1": s.array("lon", sh, kind="nd", contig=None), "lat1": s.array("lat", sh, kind="nd", contig=None), "satz1": s.array("satz", sh, kind="nd", contig=None),
             "coarse_resolution": cfg["coarse"], "fine_resolution": cfg["fine"]}
        r["coarse_scan_width"] = 0 if cfg["coarse"] == 1000 else cfg["width"]
        return r

    def matches(self, c):
        co, fi, w = c.a.coarse_resolution, c.a.fine_resolution, c.a.coarse_scan_width
        for cfg in CONFIGS:
            ww = 0 if cfg["coarse"] == 1000 else cfg["width"]
            if not any(sym(x) for x in (co, fi, w)) and (co, fi, w) == (cfg["coarse"], cfg["fine"], ww):
                return cfg
        return None

    def spec(self, c):
        g = G(c.cfg)
        sh = c.a.satz1.shape
        for k in ("lon1", "lat1", "satz1"):
            v = c.a[k]
            c.require(eq(v.shape[1], g.W), "full width")
            c.require(eq(v.shape[0], sh[0]), "same shape")
        c.raises(True if c.cfg.get("partial") else cmp("!=", norm(Z(sh[0]) % g.csl), 0), "ValueError")
        lon, lat, satz = [c.reader(c.a[k]) for k in ("lon1", "lat1", "satz1")]
        fx = fine_position(g, lon, lat, satz, lambda st, i: g.s_t(i), lambda st, j: g.s_s(j))
        shape = [mul(sh[0], g.f), g.fw]
        c.returns((c.array(shape, "FT", lambda st, i, j: lon_of(*fx(st, i, j))), c.array(shape, "FT", lambda st, i, j: lat_of(*fx(st, i, j)))))


INTERNAL = [LonLat2Xyz(), Xyz2LonLat(), ExpansionAlignment(), ExpandTiepoints(), GetAtrackAscan(), ComputeFineXyz(), GetCoords(), InterpolateScans()]
API = [Interpolate()]
