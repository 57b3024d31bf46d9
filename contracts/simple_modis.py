"""Contracts of the angle-free MODIS interpolation (_simple_modis_interpolator.pyx)."""
from fractions import Fraction as F

import core
from core import add, cmp, div, eq, mul, sub, sym
from contract import Contract
from mem import idiv
from modis import LonLat2Xyz, Xyz2LonLat, bilinear, clamp, floordiv, lat_of, lon_of, real, to_xyz

SM = "geotiepoints._simple_modis_interpolator"
CONFIGS = [{"fine": 500}, {"fine": 250}]


def track(f, i):
    """Track position of fine row i of a scan, in tie rows."""
    return sub(div(add(real(i), F(1, 2)), F(f)), F(1, 2))


def cell_weights(f, ncols, il, j):
    zr = clamp(floordiv(sub(il, f // 2), f), 0, 8)
    zc = clamp(floordiv(j, f), 0, sub(ncols, 2))
    return zr, zc, core.let(sub(track(f, il), real(zr)), 0), core.let(sub(div(real(j), F(f)), real(zc)), 0)


CORNERS = ((0, 0), (0, 1), (1, 1), (1, 0))


class InterpolatedScan(Contract):
    """One scan: every fine pixel is bilinear in its cell, the outermost cells continued."""
    mod, qual = SM, "_compute_interpolated_xyz_scan"
    configs = [{"f": 2}, {"f": 4}]

    def matches(self, c):
        f = c.a.res_factor
        return {"f": f} if not sym(f) and f in (2, 4) else None

    def setup(self, s, cfg):
        f = cfg["f"]
        w = s.int("width", 2, 2**31 // (10 * f * f))
        co = s.ex.fnarray(s.st, [2, 10 * f, mul(w, f)], "FT", lambda e, st, p: self.coordinate(f, *p), "coordinates")
        co.kind, co.buf.role = "mv", "param"
        return {"res_factor": f, "coordinates_view": co, "xyz_input_view": s.array("xyz_in", [10, w, 3]),
                "xyz_result_view": s.array("xyz_out", [10 * f, mul(w, f), 3], uninit=True)}

    @staticmethod
    def coordinate(f, c, i, j):
        y, x = track(f, i), div(real(j), F(f))
        return (y, x)[c] if not sym(c) else core.ite(eq(c, 0), y, x)

    def spec(self, c):
        f, a = c.cfg["f"], c.a
        n = a.xyz_input_view.shape[1]
        c.require(cmp(">=", n, 2), "at least two columns")
        for v, sh in ((a.xyz_input_view, (10, n, 3)), (a.coordinates_view, (2, 10 * f, mul(n, f))), (a.xyz_result_view, (10 * f, mul(n, f), 3))):
            for d, m in enumerate(sh):
                c.require(eq(v.shape[d], m), "extents")
        co, src = c.reader(a.coordinates_view), c.reader(a.xyz_input_view)
        i, j = core.fresh("i"), core.fresh("j")
        inside = core.band(cmp("<=", 0, i), cmp("<", i, 10 * f), cmp("<=", 0, j), cmp("<", j, mul(n, f)))
        s2 = c.st.copy()
        s2.pc.append(inside)
        for k in range(2):
            c.require(core.bor(core.bnot(inside), eq(co(s2, k, i, j), self.coordinate(f, k, i, j))), "the coordinates of the fine pixels")

        def val(st, i, j, k):
            zr, zc, t, s = cell_weights(f, n, i, j)
            return bilinear(t, s, *[src(st, add(zr, p), add(zc, q), k) for p, q in CORNERS])
        c.assign(a.xyz_result_view, val)


def simple_parts(f, ncols, lon, lat, st, i, j):
    scan = idiv(i, 10 * f, st.pc)
    il = sub(i, mul(scan, 10 * f))
    zr, zc, t, s = cell_weights(f, ncols, il, j)
    zi = add(mul(scan, 10), zr)
    ll = [(lon(st, add(zi, a), add(zc, b)), lat(st, add(zi, a), add(zc, b))) for a, b in CORNERS]
    xyz = [[core.let(to_xyz(lo, la, k), 0) for lo, la in ll] for k in range(3)]
    return {"t": t, "a_scan": s, "lonlat": ll, "corners": xyz, "p": [core.let(bilinear(t, s, *xyz[k]), 0) for k in range(3)]}


def simple_position(f, ncols, lon, lat):
    """Cartesian position of fine pixel (i, j): bilinear in the cell of its own scan, the outermost cells continued."""
    return lambda st, i, j: simple_parts(f, ncols, lon, lat, st, i, j)["p"]


class Simple(Contract):
    mod, qual = SM, "interpolate_geolocation_cartesian"
    level = "api"
    configs = CONFIGS + [dict(c, partial=True) for c in CONFIGS]

    def setup(self, s, cfg):
        n, w = s.int("scans", 0, 2**31), s.int("width", 2, 2**31)
        f = 1000 // cfg["fine"]
        s.st.pc.append(cmp("<", mul(mul(add(n, 1), 10 * f), mul(w, f)), 2**31))
        rows = add(mul(10, n), s.int("more", 1, 9)) if cfg.get("partial") else mul(10, n)
        return {"lon_array": s.array("lon", [rows, w], kind="nd", contig=None), "lat_array": s.array("lat", [rows, w], kind="nd", contig=None),
                "coarse_resolution": 1000, "fine_resolution": cfg["fine"]}

    def matches(self, c):
        co, fi = c.a.coarse_resolution, c.a.fine_resolution
        if sym(co) or sym(fi) or co != 1000 or fi not in (250, 500):
            return None
        return {"fine": fi}

    def spec(self, c):
        f = 1000 // c.cfg["fine"]
        lo, la = c.a.lon_array, c.a.lat_array
        c.require(eq(lo.shape[0], la.shape[0]), "same shape")
        c.require(eq(lo.shape[1], la.shape[1]), "same shape")
        c.require(cmp(">=", lo.shape[1], 2), "two columns")
        c.raises(True if c.cfg.get("partial") else cmp("!=", core.norm(core.Z(lo.shape[0]) % 10), 0), "ValueError")
        fx = simple_position(f, lo.shape[1], c.reader(lo), c.reader(la))
        shape = [mul(lo.shape[0], f), mul(lo.shape[1], f)]
        c.returns((c.array(shape, "FT", lambda st, i, j: lon_of(*fx(st, i, j))), c.array(shape, "FT", lambda st, i, j: lat_of(*fx(st, i, j)))))


INTERNAL = [LonLat2Xyz(), Xyz2LonLat(), InterpolatedScan()]
API = [Simple()]
