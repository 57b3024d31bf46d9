"""Bounded runtime conformance of the real code to the contracts, one section per property.

gen_Cxx(rng, tier) yields (kind, params): params are JSON, so that a failing case can be replayed.
run_<kind>(params) raises Violation when the real code breaks the property on that case.
"""
import itertools

import numpy as np

from common import (R_GEO, axis, bilinear, fail, frame, lonlat2xyz, modis_angle_oracle, modis_simple_oracle,
                    nonuniform_bilinear, poisoned_empty, raises, same, same_position, swath, unit, xyz2lonlat, zenith)

N = {"quick": 1, "thorough": 6}


def seeds(rng, n):
    return [int(s) for s in rng.integers(0, 2 ** 31, n)]


# ================================================================ MODIS
PAIRS = [(1000, 500), (1000, 250), (5000, 1000), (5000, 500), (5000, 250)]


def angle_fun(coarse, fine):
    from geotiepoints import modisinterpolator as m
    return {(1000, 500): m.modis_1km_to_500m, (1000, 250): m.modis_1km_to_250m, (5000, 1000): m.modis_5km_to_1km,
            (5000, 500): m.modis_5km_to_500m, (5000, 250): m.modis_5km_to_250m}[coarse, fine]


def simple_fun(fine):
    from geotiepoints import simple_modis_interpolator as m
    return {500: m.modis_1km_to_500m, 250: m.modis_1km_to_250m}[fine]


def modis_case(p):
    rng = np.random.default_rng(p["seed"])
    S = 10 if p["coarse"] == 1000 else 2
    lon, lat, satz = swath(rng, S, p["scans"], p["width"], p["style"], p.get("dtype", "f8"))
    if p.get("zenith"):
        satz = zenith(rng, p["zenith"], lon.shape, S, p.get("dtype", "f8"))
    return lon, lat, satz


def run_angle(p):
    lon, lat, satz = modis_case(p)
    with poisoned_empty():
        glon, glat = angle_fun(p["coarse"], p["fine"])(lon, lat, satz)
    if glon.dtype != lon.dtype or glat.dtype != lon.dtype:
        fail("dtype changed", got=(str(glon.dtype), str(glat.dtype)))
    elon, elat, near = modis_angle_oracle(lon, lat, satz, p["coarse"], p["fine"])
    tol = 1e-7 if lon.dtype == np.float64 else (6e-3 if p["style"] == "pole" else 4e-4)
    same_position(glon, glat, elon, elat, tol, "MODIS %(coarse)d->%(fine)d with zenith angles" % p, skip=near)
    if (p["coarse"], p["fine"]) == (5000, 1000):   # pixels on a tie point
        same_position(np.asarray(glon)[2::5, 2::5][:, :lon.shape[1]], np.asarray(glat)[2::5, 2::5][:, :lon.shape[1]],
                      lon, lat, tol, "tie points reproduced")


def gen_C01(rng, tier):
    for rep in range(N[tier]):
        for (c, f) in PAIRS:
            widths = [1354] if c == 1000 else [270, 271]
            for w in widths:
                for style, zen, scans, dt in [("plain", None, 2, "f8"), ("rough", "symmetric", 1, "f8"), ("antimeridian", "steps", 1, "f8"),
                                              ("pole", "perscan", 1, "f8"), ("highlat", "ramp", 1, "f8"), ("plain", None, 1, "f4")]:
                    if tier == "quick" and c == 1000 and f == 250 and style in ("pole", "highlat"):
                        continue
                    yield "angle", dict(coarse=c, fine=f, width=w, style=style, zenith=zen, scans=scans, dtype=dt, seed=seeds(rng, 1)[0])


def run_simple(p):
    lon, lat, _ = modis_case(dict(p, coarse=1000))
    with poisoned_empty():
        glon, glat = simple_fun(p["fine"])(lon, lat)
    if glon.dtype != lon.dtype or glat.dtype != lon.dtype:
        fail("dtype changed", got=(str(glon.dtype), str(glat.dtype)))
    elon, elat, near = modis_simple_oracle(lon, lat, p["fine"])
    tol = 1e-7 if lon.dtype == np.float64 else (6e-3 if p["style"] == "pole" else 4e-4)
    same_position(glon, glat, elon, elat, tol, "simple MODIS 1000->%(fine)d" % p, skip=near)


def gen_C05(rng, tier):
    for rep in range(2 * N[tier]):
        for f in (500, 250):
            for style, scans, dt in [("plain", 2, "f8"), ("rough", 1, "f8"), ("antimeridian", 1, "f8"), ("pole", 1, "f8"),
                                     ("highlat", 1, "f8"), ("equator", 1, "f8"), ("plain", 1, "f4")]:
                width = 1354 if style == "plain" else int(rng.integers(2, 60))
                yield "simple", dict(fine=f, width=width, style=style, scans=scans, dtype=dt, seed=seeds(rng, 1)[0])


def _wrap(kind, arrays, chunks):
    import dask.array as da
    import xarray as xr
    if kind == "numpy":
        return arrays
    if kind == "dask":
        return [da.from_array(a, chunks=c) for a, c in zip(arrays, chunks)]
    if kind == "xarray":
        return [xr.DataArray(a, dims=("row", "pix")) for a in arrays]
    if kind == "xarray-dask":
        return [xr.DataArray(da.from_array(a, chunks=c), dims=("row", "pix")) for a, c in zip(arrays, chunks)]
    raise ValueError(kind)


def _check_container(kind, res, what):
    import dask.array as da
    import xarray as xr
    for r in res:
        if kind == "numpy" and type(r) is not np.ndarray:
            fail(what + ": numpy in, %s out" % type(r))
        if kind == "dask" and not isinstance(r, da.Array):
            fail(what + ": dask in, %s out" % type(r))
        if kind.startswith("xarray"):
            if not isinstance(r, xr.DataArray) or r.dims != ("row", "pix"):
                fail(what + ": DataArray in, %s out" % type(r))
            if isinstance(r.data, da.Array) != (kind == "xarray-dask"):
                fail(what + ": %s in, data %s out" % (kind, type(r.data)))


def _split(rng, n):
    """A random chunking of n."""
    parts = []
    while n > 0:
        k = int(rng.integers(1, n + 1))
        parts.append(k)
        n -= k
    return tuple(parts)


def run_modis_chunks(p):
    """Result = stack of the single scan results, for every container and chunking."""
    import dask
    rng = np.random.default_rng(p["seed"])
    S = 10 if p["coarse"] == 1000 else 2
    lon, lat, satz = modis_case(p)
    n = p["scans"]
    if p["algo"] == "angle":
        fun, arrays = angle_fun(p["coarse"], p["fine"]), [lon, lat, satz]
    else:
        fun, arrays = simple_fun(p["fine"]), [lon, lat]
    single = [fun(*[a[k * S:(k + 1) * S].copy() for a in arrays]) for k in range(n)]
    exp = [np.vstack([s[c] for s in single]) for c in range(2)]
    chunks = [p["chunks"]] * len(arrays) if p.get("chunks") else None
    if chunks is None:
        rc = _split(rng, S * n)
        cc = _split(rng, p["width"]) if rng.random() < 0.7 else (p["width"],)
        chunks = [(rc, cc)] * len(arrays)
        pick = rng.random()
        if pick < 0.25:
            chunks[int(rng.integers(0, len(arrays)))] = (_split(rng, S * n), (p["width"],))
        elif pick < 0.6:
            # whole scans and full width everywhere, but not the same pieces in one of the arrays
            whole = [(tuple(S * x for x in _split(rng, n)), (p["width"],)) for _ in range(2)]
            if whole[0] == whole[1]:
                whole = [((S * n,), (p["width"],)), ((S,) * n, (p["width"],))]
            chunks = [whole[0]] * len(arrays)
            chunks[int(rng.integers(0, len(arrays))) if pick < 0.4 else -1] = whole[1]
    called = []

    def scheduler(dsk, keys, **kw):
        called.append(1)
        return dask.get(dsk, keys, **kw)
    with dask.config.set(scheduler=scheduler), poisoned_empty():
        res = fun(*_wrap(p["container"], arrays, chunks))
        if called and "dask" in p["container"]:
            fail("computed eagerly")
        if len(res) != 2:
            fail("two results expected")
        _check_container(p["container"], res, "container")
        declared = [tuple(r.shape) for r in res]
        dts = [r.dtype for r in res]
        res = dask.compute(*res)
    for c in range(2):
        if declared[c] != np.shape(res[c]):
            fail("declared shape differs from computed shape", declared=declared[c], computed=np.shape(res[c]))
        if dts[c] != res[c].dtype or dts[c] != lon.dtype:
            fail("dtype", declared=str(dts[c]), computed=str(res[c].dtype))
    same_position(np.asarray(res[0]), np.asarray(res[1]), exp[0], exp[1], 1e-9, "stack of scans (%(container)s)" % p)


def run_modis_scanframe(p):
    """Changing one scan changes no other scan."""
    S = 10 if p["coarse"] == 1000 else 2
    lon, lat, satz = modis_case(p)
    fun, arrays = (angle_fun(p["coarse"], p["fine"]), [lon, lat, satz]) if p["algo"] == "angle" else (simple_fun(p["fine"]), [lon, lat])
    base = fun(*[a.copy() for a in arrays])
    k = p["which"]
    arrays2 = [a.copy() for a in arrays]
    for a, d in zip(arrays2, (1.0, 0.5, 3.0)):
        a[k * S:(k + 1) * S] = np.nan if p["nan"] else a[k * S:(k + 1) * S] + d
    new = fun(*arrays2)
    fs = base[0].shape[0] // p["scans"]
    keep = np.ones(base[0].shape[0], bool)
    keep[k * fs:(k + 1) * fs] = False
    for c in range(2):
        if not np.array_equal(base[c][keep], new[c][keep], equal_nan=True):
            fail("rows of other scans depend on scan %d" % k)


def gen_C02(rng, tier):
    for rep in range(N[tier]):
        for algo in ("angle", "simple"):
            for (c, f) in PAIRS:
                if algo == "simple" and c == 5000:
                    continue
                for kind in ("numpy", "dask", "xarray", "xarray-dask"):
                    w = 1354 if c == 1000 else int(rng.choice([270, 271]))
                    if algo == "simple":
                        w = int(rng.integers(5, 200))
                    scans = int(rng.integers(2, 4)) if (c, f) != (1000, 250) else 2
                    for r2 in (0, 1, 0, 0) if "dask" in kind else (0,):
                        S = 10 if c == 1000 else 2
                        # one regular chunking smaller than, or not a multiple of a scan, and one random chunking
                        ch = [int(rng.choice([1, S - 1, S, S + 1, 2 * S])) or 1, w] if r2 else None
                        yield "modis_chunks", dict(algo=algo, coarse=c, fine=f, width=w, scans=scans, style="plain",
                                                   container=kind, chunks=ch, seed=seeds(rng, 1)[0])
                for nan in (False, True):
                    w = 1354 if c == 1000 else int(rng.choice([270, 271]))
                    if algo == "simple":
                        w = int(rng.integers(5, 200))
                    scans = 3 if (c, f) != (1000, 250) else 2
                    yield "modis_scanframe", dict(algo=algo, coarse=c, fine=f, width=w, scans=scans, style="plain", nan=nan,
                                                  which=int(rng.integers(0, scans)), seed=seeds(rng, 1)[0])


# ---------------------------------------------------------------- C03 (also run under AddressSanitizer)
def run_kernel_full(p):
    """Every element written, documented shape, input dtype."""
    lon, lat, satz = modis_case(p)
    f = p["coarse"] // p["fine"]
    with poisoned_empty():
        if p["algo"] == "angle":
            res = angle_fun(p["coarse"], p["fine"])(lon, lat, satz)
            shape = (lon.shape[0] * f, 1354 * 1000 // p["fine"])
        else:
            res = simple_fun(p["fine"])(lon, lat)
            shape = (lon.shape[0] * f, lon.shape[1] * f)
    for r in res:
        if r.shape != shape or r.dtype != lon.dtype:
            fail("shape/dtype", got=(r.shape, str(r.dtype)), expected=(shape, str(lon.dtype)))
        if np.isnan(r).any():
            fail("unwritten elements", n=int(np.isnan(r).sum()), first=[int(i) for i in np.argwhere(np.isnan(r))[0]])


def run_kernel_reject(p):
    S = 10 if p["coarse"] == 1000 else 2
    rng = np.random.default_rng(0)

    def mk(rows, cols, dt="f8"):
        return rng.uniform(1, 2, (rows, cols)).astype(dt)
    w = p["width"]
    if p["algo"] == "angle":
        from geotiepoints._modis_interpolator import interpolate
        kw = dict(coarse_resolution=p["coarse"], fine_resolution=p["fine"], coarse_scan_width=p.get("csw", 0))
        rows = p["rows"]
        shapes = [tuple(s) for s in p["shapes"]] if p.get("shapes") else [(rows, w)] * 3
        raises(Exception, lambda: interpolate(*[mk(*s) for s in shapes], **kw), "bad shape accepted %r" % (p,))
    else:
        from geotiepoints.simple_modis_interpolator import interpolate_geolocation_cartesian as ig
        shapes = [tuple(s) for s in p["shapes"]]
        raises(Exception, lambda: ig(*[mk(*s) for s in shapes], coarse_resolution=p["coarse"], fine_resolution=p["fine"]),
               "bad shape accepted %r" % (p,))


def run_multilinear_reject(p):
    from geotiepoints.multilinear import MultilinearInterpolator

    def go():
        m = MultilinearInterpolator(p["smin"], p["smax"], p["orders"])
        m.set_values(np.ones((2, p["nv"])))
        m(np.ones((p["ds"], 3)) * 0.5)
    raises(Exception, go, "bad multilinear arguments accepted %r" % (p,))


def run_multilinear_full(p):
    from geotiepoints.multilinear import MultilinearInterpolator
    rng = np.random.default_rng(p["seed"])
    d = len(p["orders"])
    m = MultilinearInterpolator([0.0] * d, [1.0] * d, p["orders"], dtype=p["dtype"])
    m.set_values(rng.normal(size=(p["nv"], int(np.prod(p["orders"])))))
    s = rng.uniform(-1, 2, (d, p["ns"]))
    s[:, :2] = [[1.0, 1e30]] * d
    with poisoned_empty():
        r = m(s)
    if r.shape != (p["nv"], p["ns"]) or r.dtype != np.dtype(p["dtype"]):
        fail("multilinear result shape/dtype", got=(r.shape, str(r.dtype)))
    if np.isnan(r[:, 2:]).any():
        fail("multilinear: unwritten elements")


def gen_C03(rng, tier):
    for dt in ("f8", "f4"):
        for (c, f) in PAIRS:
            for w in ([1354] if c == 1000 else [270, 271]):
                yield "kernel_full", dict(algo="angle", coarse=c, fine=f, width=w, scans=2 if f != 250 or tier != "quick" else 1,
                                          style="plain", dtype=dt, seed=seeds(rng, 1)[0])
        for f in (500, 250):
            for w in (2, 3, int(rng.integers(4, 100))):
                yield "kernel_full", dict(algo="simple", coarse=1000, fine=f, width=w, scans=2, style="plain", dtype=dt, seed=seeds(rng, 1)[0])
    yield "kernel_full", dict(algo="simple", coarse=1000, fine=500, width=20, scans=0, style="plain", dtype="f8", seed=1)
    for (c, f) in PAIRS:
        S = 10 if c == 1000 else 2
        w = 1354 if c == 1000 else 271
        for rows in ([1, 9, 11, 15, 25] if S == 10 else [1, 3, 5]):
            yield "kernel_reject", dict(algo="angle", coarse=c, fine=f, width=w, rows=rows, csw=w if c == 5000 else 0)
        for ww in ([1000, 1353, 1355, 2708] if S == 10 else [269, 272, 135]):
            yield "kernel_reject", dict(algo="angle", coarse=c, fine=f, width=ww, rows=S, csw=ww if c == 5000 else 0)
        if S == 2:
            yield "kernel_reject", dict(algo="angle", coarse=c, fine=f, width=270, rows=S, csw=271)
            yield "kernel_reject", dict(algo="angle", coarse=c, fine=f, width=271, rows=S, csw=270)
        for bad in range(3):
            for dr, dc in ((-S, 0), (0, -1), (S, 0), (0, 1)):
                shapes = [[2 * S, w]] * 3
                shapes[bad] = [2 * S + dr, w + dc]
                yield "kernel_reject", dict(algo="angle", coarse=c, fine=f, width=w, rows=0, shapes=shapes, csw=w if c == 5000 else 0)
    for f in (500, 250):
        for rows in (1, 9, 11, 15):
            yield "kernel_reject", dict(algo="simple", coarse=1000, fine=f, width=0, shapes=[[rows, 20]] * 2)
        for s in ([[10, 1]] * 2, [[10, 0]] * 2, [[10, 20], [10, 19]], [[10, 20], [20, 20]], [[20, 20], [10, 20]], [[10, 20], [10, 21]]):
            yield "kernel_reject", dict(algo="simple", coarse=1000, fine=f, width=0, shapes=s)
    for c, f, r in ((5000, 1000, 2), (5000, 500, 2), (500, 250, 20), (1000, 1000, 10), (5000, 250, 2)):
        yield "kernel_reject", dict(algo="simple", coarse=c, fine=f, width=0, shapes=[[r, 20]] * 2)
    for d in range(1, 6):
        for rep in range(2 * N[tier]):
            o = [int(x) for x in rng.integers(2, 5, d)]
            yield "multilinear_full", dict(orders=o, nv=int(rng.integers(1, 4)), ns=int(rng.integers(3, 40)), dtype="f8" if rep % 2 else "f4",
                                           seed=seeds(rng, 1)[0])
            n = int(np.prod(o))
            sm, sM = [0.0] * d, [1.0] * d
            for k in range(d):
                o1 = list(o)
                o1[k] = 1
                yield "multilinear_reject", dict(smin=sm, smax=sM, orders=o1, nv=int(np.prod(o1)), ds=d)
                o1[k] = 0
                yield "multilinear_reject", dict(smin=sm, smax=sM, orders=o1, nv=n, ds=d)
                o1[k] = -3
                yield "multilinear_reject", dict(smin=sm, smax=sM, orders=o1, nv=n, ds=d)
                o1[k] = 2 ** 62
                yield "multilinear_reject", dict(smin=sm, smax=sM, orders=o1, nv=n, ds=d)
            for nv in (n - 1, n + 1, 1, n // o[0], n * o[0], 0):
                if nv != n:
                    yield "multilinear_reject", dict(smin=sm, smax=sM, orders=o, nv=nv, ds=d)
            for ds in (d - 1, d + 1, 0):
                yield "multilinear_reject", dict(smin=sm, smax=sM, orders=o, nv=n, ds=ds)
            yield "multilinear_reject", dict(smin=sm[:-1], smax=sM, orders=o, nv=n, ds=d)
            yield "multilinear_reject", dict(smin=sm, smax=sM[:-1], orders=o, nv=n, ds=d)
    yield "multilinear_reject", dict(smin=[0] * 6, smax=[1] * 6, orders=[2] * 6, nv=64, ds=6)


# ---------------------------------------------------------------- C04
def _conversions(dtype="f8"):
    """name -> (forward, backward, radius); the compiled pair is reached through the public MODIS code only."""
    from geotiepoints import geointerpolator as g, viiinterpolator as v
    import xarray as xr

    def vfwd(lon, lat):
        return [np.asarray(a) for a in v._lonlat2xyz(xr.DataArray(lon), xr.DataArray(lat))]

    def vbwd(x, y, z, thr=0.8):
        return [np.asarray(a) for a in v._xyz2lonlat(xr.DataArray(x), xr.DataArray(y), xr.DataArray(z), thr)]
    return {"geo": (g.lonlat2xyz, g.xyz2lonlat, g.EARTH_RADIUS), "vii": (vfwd, vbwd, v.MEAN_EARTH_RADIUS)}


def special_positions():
    lon = np.array([-180, -179.9999, -135, -90, -45, -1e-9, 0, 1e-9, 30, 45, 89.999999, 90, 90.000001, 135, 179.9999, 180.0])
    lat = np.array([-90, -89.999999, -60, -53.2, -53.13010235415598, -53, -45, -1e-7, 0, 1e-7, 1, 45, 53, 53.13010235415598, 53.2, 60, 89.99, 90.0])
    return [a.copy() for a in np.meshgrid(lon, lat)]


def run_roundtrip(p):
    lon, lat = special_positions()
    if p.get("seed") is not None:
        rng = np.random.default_rng(p["seed"])
        lon, lat = rng.uniform(-180, 180, (40, 50)), rng.uniform(-90, 90, (40, 50))
    fwd, bwd, R = _conversions()[p["impl"]]
    x, y, z = fwd(lon, lat)
    e = lonlat2xyz(lon, lat, R)
    same(np.stack([x, y, z]), e, 1e-12, "lonlat2xyz")
    glon, glat = bwd(x, y, z)
    tol = 2e-6     # arcsin(r/R) is only accurate to sqrt(eps) towards the poles, arccos(z/R) elsewhere
    same_position(glon, glat, lon, lat, tol, p["impl"] + " round trip")
    if np.isnan(glon).any() or np.isnan(glat).any():
        fail("NaN")
    same(np.abs(glat - lat).max(), 0, tol, "latitude")


def run_backward(p):
    rng = np.random.default_rng(p["seed"])
    fwd, bwd, R = _conversions()[p["impl"]]
    v = rng.normal(size=(3, 60, 7))
    v /= np.linalg.norm(v, axis=0)
    v *= rng.uniform(0.05, 1, v.shape[1:])
    v[:, 0] = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [-.5, 0, .5]]).T
    v[:, 1] = np.array([[-.5, -0.0, .1], [-.5, 0, -.1], [.3, 0, .1], [-.2, 0, .9], [-.2, 0, -.9], [-.2, 1e-12, .3], [0, 0, .5]]).T
    v *= R
    if p["impl"] == "geo":
        radius = R * p.get("scale", 1.0)
        v = v * p.get("scale", 1.0)
        kw = dict(thr=p["thr"], low_lat_z=p["low"], radius=radius)
        glon, glat = bwd(*v, **kw)
        if p["low"]:
            elon, elat = xyz2lonlat(*v, radius, p["thr"])
        else:
            elon, elat = xyz2lonlat(*v, radius, p["thr"], False)
    else:
        radius = R
        glon, glat = bwd(*v, p["thr"])
        elon, elat = xyz2lonlat(*v, radius, p["thr"])
    if np.isnan(glon).any() or np.isnan(glat).any():
        fail("NaN for a point within the sphere")
    dl = np.abs((glon - elon + 180) % 360 - 180)
    same(dl, np.zeros_like(dl), 1e-7, "azimuth")
    same(glat, elat, 1e-6, "latitude", equal_nan=False)


def run_modis_roundtrip(p):
    """The compiled conversions: constant cells and exact nodes of the 5km->1km interpolation give back the tie points."""
    rng = np.random.default_rng(p["seed"])
    lon, lat = special_positions()
    lon, lat = lon.ravel(), lat.ravel()
    if p["random"]:
        lon, lat = rng.uniform(-180, 180, 300), rng.uniform(-90, 90, 300)
    lo, la = np.zeros((2, 270)), np.zeros((2, 270))
    for k in range(0, len(lon), 270):
        part_lo, part_la = lon[k:k + 270], lat[k:k + 270]
        lo[:, :len(part_lo)], la[:, :len(part_la)] = part_lo, part_la
        sz = np.full((2, 270), 20.0)
        glon, glat = angle_fun(5000, 1000)(lo.copy(), la.copy(), sz)
        same_position(glon[2::5, 2::5][:, :270], glat[2::5, 2::5][:, :270], lo, la, 2e-6, "compiled round trip at nodes")
    # simple: a swath that is constant is returned as is
    from geotiepoints.simple_modis_interpolator import modis_1km_to_500m
    for a, b in zip(lon[::max(1, len(lon) // 30)], lat[::max(1, len(lat) // 30)]):
        glon, glat = modis_1km_to_500m(np.full((10, 2), a), np.full((10, 2), b))
        same_position(glon, glat, np.full((20, 4), a), np.full((20, 4), b), 2e-6, "constant swath")
        if np.isnan(glon).any() or np.isnan(glat).any():
            fail("NaN")


def run_modis_midpoints(p):
    """Points off the sphere in the compiled code: midpoints across the antimeridian, the poles, and ordinary chords."""
    from geotiepoints.simple_modis_interpolator import modis_1km_to_500m
    rng = np.random.default_rng(p["seed"])
    a, b = {"am": ((179.0, 10.0), (-179.0, 10.0)), "am0": ((179.0, 0.0), (-179.0, 0.0)), "pole": ((10.0, 89.0), (-170.0, 89.0)),
            "spole": ((10.0, -89.0), (-170.0, -89.0)), "amhigh": ((178.0, 70.0), (-178.0, 70.0)), "amshigh": ((178.0, -70.0), (-178.0, -70.0)),
            "chord": ((rng.uniform(-180, 180), rng.uniform(-50, 50)),) * 2}[p["where"]]
    lon, lat = np.empty((10, 2)), np.empty((10, 2))
    if p["where"] == "chord":
        lon[:], lat[:] = a[0], a[1]
        lon[:, 1] += rng.uniform(1, 20)
        lon = (lon + 180) % 360 - 180
    else:
        lon[:, 0], lat[:, 0] = a
        lon[:, 1], lat[:, 1] = b
    glon, glat = modis_1km_to_500m(lon, lat)
    if np.isnan(glon).any() or np.isnan(glat).any():
        fail("NaN in " + p["where"])
    elon, elat, near = modis_simple_oracle(lon, lat, 500)
    same_position(glon, glat, elon, elat, 1e-6, "midpoint " + p["where"], skip=near)


def gen_C04(rng, tier):
    for impl in ("geo", "vii"):
        yield "roundtrip", dict(impl=impl, seed=None)
        for s in seeds(rng, 5 * N[tier]):
            yield "roundtrip", dict(impl=impl, seed=s)
            for thr in (0.8, 0.5, 0.3):
                for low in (True, False):
                    for scale in (1.0, 1e-3):
                        yield "backward", dict(impl=impl, seed=s, thr=thr, low=low, scale=scale)
    yield "modis_roundtrip", dict(seed=0, random=False)
    for s in seeds(rng, 3 * N[tier]):
        yield "modis_roundtrip", dict(seed=s, random=True)
    for w in ("am", "am0", "pole", "spole", "amhigh", "amshigh", "chord", "chord", "chord"):
        yield "modis_midpoints", dict(where=w, seed=seeds(rng, 1)[0])
    for p in [dict(coarse=1000, fine=250, width=1354, style="antimeridian", zenith=None, scans=1, dtype="f8", seed=3),
              dict(coarse=5000, fine=1000, width=270, style="pole", zenith=None, scans=2, dtype="f8", seed=4)]:
        yield "angle", p


# ---------------------------------------------------------------- C06, C07
def dlinear(smin, smax, orders, values, s):
    d = len(orders)
    q, lam = [], []
    for k in range(d):
        u = (s[k] - smin[k]) / (smax[k] - smin[k]) * (orders[k] - 1)
        qk = np.clip(np.trunc(np.clip(u, -1, orders[k])).astype(int), 0, orders[k] - 2)
        q.append(qk)
        lam.append(u - qk)
    out = np.zeros((values.shape[0], s.shape[1]))
    V = values.reshape((values.shape[0],) + tuple(orders))
    for corner in itertools.product((0, 1), repeat=d):
        w = np.ones(s.shape[1])
        for k in range(d):
            w = w * (lam[k] if corner[k] else 1 - lam[k])
        out += w * V[(slice(None),) + tuple(q[k] + corner[k] for k in range(d))]
    return out


def run_multilinear(p):
    from geotiepoints.multilinear import MultilinearInterpolator
    rng = np.random.default_rng(p["seed"])
    o = p["orders"]
    d = len(o)
    smin = rng.uniform(-3, 3, d)
    smax = smin + rng.uniform(0.1, 5, d)
    if p.get("int"):
        smin, smax = np.zeros(d), np.asarray(o, "f8") - 1
    vals = rng.normal(size=(p["nv"], int(np.prod(o)))) * rng.choice([1.0, 100.0])
    m = MultilinearInterpolator(smin, smax, o, dtype=np.dtype(p["dtype"]).type)
    m.set_values(vals)
    t = rng.uniform(-0.5, 1.5, (d, p["ns"]))
    nodes = rng.integers(0, np.asarray(o)[:, None], (d, p["ns"])) / (np.asarray(o)[:, None] - 1.0)
    pick = rng.random(p["ns"]) < 0.3
    t[:, pick] = nodes[:, pick]
    mixed = rng.random(t.shape) < 0.15
    t = np.where(mixed, nodes, t)
    s = smin[:, None] + t * (smax - smin)[:, None]
    if p.get("int"):
        s = np.where(rng.random(s.shape) < 0.7, np.round(s), s)
    with frame("multilinear", vals, s, smin, smax):
        r = m(s)
    f4 = p["dtype"] == "f4"
    e = dlinear(np.asarray(smin, p["dtype"]).astype("f8"), np.asarray(smax, p["dtype"]).astype("f8"), o,
                np.asarray(vals, p["dtype"]).astype("f8"), np.asarray(s, p["dtype"]).astype("f8"))
    same(r, e, 3e-3 if f4 else 1e-9, "d-linear value, d=%d" % d)
    # independence of rows and points
    k = int(rng.integers(0, p["nv"]))
    m2 = MultilinearInterpolator(smin, smax, o, values=vals[k:k + 1], dtype=np.dtype(p["dtype"]).type)
    same(m2(s[:, ::2])[0], np.asarray(r)[k, ::2], 1e-6 if f4 else 1e-12, "row/point independence")


def run_multilinear_far(p):
    from geotiepoints.multilinear import MultilinearInterpolator
    rng = np.random.default_rng(p["seed"])
    o = p["orders"]
    d = len(o)
    vals = rng.normal(size=(2, int(np.prod(o))))
    m = MultilinearInterpolator([0.0] * d, [1.0] * d, o, values=vals)
    s = np.array([[x] * d for x in (3e9, -3e9, 1e12, -1e12, 1e6, -1e6)]).T
    s[0, :2] = 0.25
    e = dlinear(np.zeros(d), np.ones(d), o, vals, s)
    r = m(s)
    if not np.allclose(r, e, rtol=1e-6, atol=0):
        fail("far extrapolation", got=r.tolist(), expected=e.tolist())


def gen_C06(rng, tier):
    for d in range(1, 6):
        for rep in range(12 * N[tier]):
            hi = {1: 9, 2: 7, 3: 5, 4: 5, 5: 4}[d]
            o = [int(x) for x in rng.integers(2, hi + 1, d)]
            if rep == 0:
                o = [2] * d
            if rep == 1:
                o = list(range(2, 2 + d))
            if rep == 2:
                o = list(range(1 + d, 1, -1))
            yield "multilinear", dict(orders=o, nv=int(rng.integers(1, 4)), ns=int(rng.integers(5, 120)),
                                      dtype="f4" if rep % 4 == 3 else "f8", int=rep % 3 == 0, seed=seeds(rng, 1)[0])
        yield "multilinear_far", dict(orders=[3] * d, seed=seeds(rng, 1)[0])


def run_mlgrid(p):
    from geotiepoints.multilinear import MultilinearInterpolator, mlinspace
    rng = np.random.default_rng(p["seed"])
    o = p["orders"]
    d = len(o)
    smin = rng.uniform(-3, 3, d)
    smax = smin + rng.uniform(0.1, 5, d)
    m = MultilinearInterpolator(smin, smax, o)
    n = int(np.prod(o))
    e = np.empty((d, n))
    for k, idx in enumerate(np.ndindex(*o)):
        for j in range(d):
            e[j, k] = smin[j] + idx[j] * (smax[j] - smin[j]) / (o[j] - 1)
    same(m.grid, e, 1e-12, "grid layout")
    same(mlinspace(smin, smax, o), e, 1e-12, "mlinspace layout")
    same(mlinspace(list(smin), list(smax), tuple(o)), e, 1e-12, "mlinspace layout (lists)")
    f = rng.normal(size=(2, n))
    m.set_values(f)
    same(m(m.grid), f, 1e-9, "values at the nodes")
    g = np.stack([np.sin(m.grid).sum(0), m.grid.prod(0)])
    m.set_values(g)
    same(m.interpolate(m.grid.copy()), g, 1e-9, "values sampled on the grid")
    same(m.grid, e, 1e-12, "grid layout afterwards")
    for w in (n - 1, n + 1, 2 * n):
        def bad():
            m2 = MultilinearInterpolator(smin, smax, o)
            m2.set_values(np.ones((1, w)))
            m2(m2.grid)
        raises(Exception, bad, "values of the wrong width accepted (%d instead of %d)" % (w, n))


def gen_C07(rng, tier):
    for d in range(1, 6):
        for rep in range(8 * N[tier]):
            o = [int(x) for x in rng.integers(2, {1: 12, 2: 7, 3: 5, 4: 4, 5: 4}[d], d)]
            if rep == 0:
                o = list(range(2, 2 + d))
            yield "mlgrid", dict(orders=o, seed=seeds(rng, 1)[0])


# ================================================================ Interpolator family
def _grid_case(rng, chunks=1, reach=(False, False, False, False), factor=1.0, min_ties=2):
    """Tie axes inside a fine grid, by chunk; reach: ties touch top/bottom/left/right border."""
    per = int(rng.integers(min_ties * 3 + 4, 18))
    lines = per * chunks
    rows = []
    for c in range(chunks):
        lo = c * per + (0 if reach[0] else int(rng.integers(1, 3)))
        hi = (c + 1) * per - 1 - (0 if reach[1] else int(rng.integers(1, 3)))
        n = int(rng.integers(min_ties, max(min_ties + 1, (hi - lo) // 2)))
        mid = np.sort(rng.choice(np.arange(lo + 1, hi), n - 2, replace=False)) if n > 2 else np.array([], int)
        rows += [lo, *mid.tolist(), hi]
    ncols = int(rng.integers(12, 30))
    lo = 0 if reach[2] else int(rng.integers(1, 4))
    hi = ncols - 1 - (0 if reach[3] else int(rng.integers(1, 4)))
    n = int(rng.integers(4, max(5, (hi - lo) // 2)))
    cols = [lo, *np.sort(rng.choice(np.arange(lo + 1, hi), n - 2, replace=False)).tolist(), hi]
    hr, hc = np.arange(lines), np.arange(ncols)
    rows, cols = np.array(rows), np.array(cols)
    if factor != 1.0:
        rows, hr = (rows + 0.5) * factor, (hr + 0.5) * factor
        cols, hc = cols * factor - 1, hc * factor - 1
    return rows, cols, hr, hc, per


def _line(x0, y0, x1, y1, x):
    return y0 + (y1 - y0) * (x - x0) / (x1 - x0)


def fill_oracle(rows, cols, hr, hc, data, chunk, directions):
    for dr in directions:
        if dr == "x":
            left, right = cols[0] > hc[0], cols[-1] < hc[-1]
            parts, ax = [], []
            if left:
                parts.append(_line(cols[0], data[:, :1], cols[1], data[:, 1:2], hc[0]))
                ax.append(hc[0])
            parts.append(data)
            ax += list(cols)
            if right:
                parts.append(_line(cols[-2], data[:, -2:-1], cols[-1], data[:, -1:], hc[-1]))
                ax.append(hc[-1])
            data, cols = np.hstack(parts), np.array(ax)
        else:
            parts, ax = [], []
            chunk = chunk or len(hr)
            for k in range(0, len(hr), chunk):
                first, last = hr[k], hr[k + chunk - 1]
                sel = (rows >= first) & (rows <= last)
                r, d = rows[sel], data[sel]
                if r[0] > first:
                    parts.append(_line(r[0], d[:1], r[1], d[1:2], first))
                    ax.append(first)
                parts.append(d)
                ax += list(r)
                if r[-1] < last:
                    parts.append(_line(r[-2], d[-2:-1], r[-1], d[-1:], last))
                    ax.append(last)
            data, rows = np.vstack(parts), np.array(ax)
    return rows, cols, data


def run_fill(p):
    from geotiepoints.interpolator import Interpolator
    rng = np.random.default_rng(p["seed"])
    rows, cols, hr, hc, per = _grid_case(rng, p["chunks"], p["reach"], p["factor"])
    sets = [rng.normal(size=(len(rows), len(cols))) * 10 for _ in range(p["nsets"])]
    if p.get("int"):
        sets = [np.round(s * 10).astype(int) for s in sets]
    chunk = per if p["chunks"] > 1 or p.get("explicit") else 0
    arg = sets[0] if p["nsets"] == 1 and p.get("bare") else list(sets)
    with frame("fill_borders", rows, cols, hr, hc, *sets):
        it = Interpolator(arg, (rows, cols), (hr, hc), 1, 1, chunk_size=chunk)
        if p.get("separate"):
            for d in p["dirs"]:
                it.fill_borders(d)
        else:
            it.fill_borders(*p["dirs"])
    if len(it.tie_data) != len(sets):
        fail("number of data sets")
    for k, s in enumerate(sets):
        er, ec, ed = fill_oracle(rows, cols, hr, hc, s, chunk, p["dirs"])
        same(it.row_indices, er, 1e-12, "row axis")
        same(it.col_indices, ec, 1e-12, "column axis")
        same(it.tie_data[k], ed, 1e-9, "tie data after filling %s" % (p["dirs"],))
    for ax in (it.row_indices, it.col_indices):
        if not (np.diff(ax) > 0).all():
            fail("axis not strictly increasing", axis=np.asarray(ax).tolist())
    raises(NameError, lambda: it.fill_borders("z"), "unknown direction")
    # filling again must not change anything
    before = (it.row_indices.copy(), it.col_indices.copy(), [d.copy() for d in it.tie_data])
    it.fill_borders(*p["dirs"])
    same(it.row_indices, before[0], 0, "second filling, rows")
    same(it.col_indices, before[1], 0, "second filling, columns")
    for a, b in zip(it.tie_data, before[2]):
        same(a, b, 1e-12, "second filling, data")


def gen_C08(rng, tier):
    for rep in range(10 * N[tier]):
        for dirs in (["x"], ["y"], ["y", "x"], ["x", "y"]):
            yield "fill", dict(chunks=int(rng.integers(1, 4)), reach=[bool(b) for b in rng.random(4) < 0.35],
                               factor=float(rng.choice([1.0, 1.0, 0.2, 0.25, 3.0])), nsets=int(rng.integers(1, 4)), dirs=dirs,
                               int=bool(rng.random() < .2), bare=bool(rng.random() < .5), separate=bool(rng.random() < .3),
                               explicit=bool(rng.random() < .3), seed=seeds(rng, 1)[0])
    yield "generic5", dict(scans=2, seed=seeds(rng, 1)[0])


def run_generic5(p):
    """generic_modis5kmto1km reproduces ties and affine data, scan by scan, borders included."""
    from geotiepoints.interpolator import generic_modis5kmto1km
    rng = np.random.default_rng(p["seed"])
    n = p["scans"]
    ex, ey = [], []
    for k in range(2):
        a = rng.normal(size=(n, 3))
        r5, c5 = np.arange(2 * n) * 5 + 2, np.arange(271) * 5 + 2
        rf, cf = np.arange(10 * n), np.arange(1354)
        ex.append(a[np.arange(2 * n) // 2, 0][:, None] + a[np.arange(2 * n) // 2, 1][:, None] * r5[:, None] + a[np.arange(2 * n) // 2, 2][:, None] * c5)
        ey.append(a[np.arange(10 * n) // 10, 0][:, None] + a[np.arange(10 * n) // 10, 1][:, None] * rf[:, None] + a[np.arange(10 * n) // 10, 2][:, None] * cf)
    with frame("generic_modis5kmto1km", *ex):
        res = generic_modis5kmto1km(*ex)
    for k in range(2):
        same(res[k], ey[k], 1e-9, "scan-wise affine data")


# ---------------------------------------------------------------- C09
def run_interp(p):
    from geotiepoints.interpolator import Interpolator
    rng = np.random.default_rng(p["seed"])
    kx, ky = p["kx"], p["ky"]
    nr, nc = int(rng.integers(kx + 1, kx + 6)), int(rng.integers(ky + 1, ky + 6))
    rows, cols = axis(rng, nr, 1, 4, kind=p["axis"]), axis(rng, nc, 1, 4, kind=p["axis"])
    sets = [rng.normal(size=(nr, nc)) * 10 for _ in range(p["nsets"])]
    if p.get("dtype"):
        sets = [(s * 10).astype(p["dtype"]) for s in sets]
    hr = np.unique(np.concatenate((rows, rng.uniform(rows[0], rows[-1], 6)))) if p["fine"] == "mixed" else np.unique(np.concatenate((rows, np.arange(rows[0], rows[-1] + 0.01))))
    hc = np.unique(np.concatenate((cols, rng.uniform(cols[0], cols[-1], 9)))) if p["fine"] == "mixed" else np.unique(np.concatenate((cols, np.arange(cols[0], cols[-1] + 0.01))))
    if p["oned"]:
        hr = rows.copy()
    with frame("Interpolator", rows, cols, hr, hc, *sets):
        it = Interpolator(list(sets), (rows, cols), (hr, hc), kx, ky)
        res = it.interpolate()
        res = [np.array(r) for r in res]
        again = Interpolator(list(sets), (rows, cols), (hr, hc), kx, ky).interpolate()
    if len(res) != len(sets):
        fail("one result per data set", got=len(res))
    fr, fc = np.searchsorted(hr, rows), np.searchsorted(hc, cols)
    tol = 1e-4 if p.get("dtype") == "f4" else 1e-8
    for k, s in enumerate(sets):
        if np.shape(res[k]) != (len(hr), len(hc)):
            fail("shape", got=np.shape(res[k]), expected=(len(hr), len(hc)))
        same(res[k], again[k], 0, "deterministic")
        same(np.asarray(res[k])[np.ix_(fr, fc)], s.astype("f8"), tol, "tie values reproduced")
        alone = Interpolator(s, (rows, cols), (hr, hc), kx, ky).interpolate()[0]
        same(res[k], alone, 1e-12, "independent of the other data sets")
        if kx == 1 and ky == 1 and not p["oned"]:
            same(res[k], nonuniform_bilinear(s, rows, cols, hr, hc), tol, "bilinear between ties")
        if p["oned"]:
            if ky == 1:
                same(res[k], np.stack([np.interp(hc, cols, r) for r in s]), tol, "linear along columns")
            other = s.copy()
            j = int(rng.integers(0, nr))
            other[np.arange(nr) != j] += 7
            r2 = Interpolator(other, (rows, cols), (hr, hc), kx, ky).interpolate()[0]
            same(np.asarray(r2)[j], np.asarray(res[k])[j], 1e-12, "row depends on its own tie row only")


def run_geo_interp(p):
    from geotiepoints.geointerpolator import GeoInterpolator
    rng = np.random.default_rng(p["seed"])
    kx, ky = p["kx"], p["ky"]
    nr, nc = int(rng.integers(kx + 1, kx + 6)), int(rng.integers(ky + 1, ky + 6))
    rows, cols = axis(rng, nr, 1, 4), axis(rng, nc, 1, 4)
    lon, lat, _ = swath(rng, nr, 1, nc, p["style"], spacing=30.0, wobble=False)
    hr = rows.copy() if p["oned"] else np.arange(rows[0], rows[-1] + 1)
    hc = np.arange(cols[0], cols[-1] + 1)
    with frame("GeoInterpolator", lon, lat, rows, cols):
        it = GeoInterpolator((lon, lat), (rows, cols), (hr, hc), kx, ky)
        glon, glat = it.interpolate()
    if np.shape(glon) != (len(hr), len(hc)) or np.shape(glat) != np.shape(glon):
        fail("shape", got=np.shape(glon))
    fr, fc = np.searchsorted(hr, rows), np.searchsorted(hc, cols)
    same_position(glon[np.ix_(fr, fc)], glat[np.ix_(fr, fc)], lon, lat, 2e-6, "tie positions reproduced")
    if np.isnan(glon).any() or np.isnan(glat).any():
        fail("NaN")
    if kx == 1 and ky == 1 and not p["oned"]:
        x, y, z = [nonuniform_bilinear(c, rows, cols, hr, hc) for c in lonlat2xyz(lon, lat, R_GEO)]
        same_position(glon, glat, *xyz2lonlat(x, y, z, R_GEO), 2e-6, "bilinear in Cartesian space")
    # Cartesian triple through a swath definition like object
    class Def:
        lons, lats = lon, lat

        def get_cartesian_coords(self):
            return np.moveaxis(lonlat2xyz(lon, lat, R_GEO), 0, -1)
    g2 = GeoInterpolator(Def(), (rows, cols), (hr, hc), kx, ky).interpolate()
    same_position(g2[0], g2[1], glon, glat, 2e-6, "swath definition input")


def gen_C09(rng, tier):
    for rep in range(4 * N[tier]):
        for kx, ky in ((1, 1), (1, 3), (3, 3), (2, 1), (3, 1), (2, 5), (5, 4), (1, 2)):
            yield "interp", dict(kx=kx, ky=ky, nsets=int(rng.integers(1, 4)), axis=str(rng.choice(["int", "float"])), fine=str(rng.choice(["mixed", "int"])),
                                 oned=False, dtype=str(rng.choice(["", "", "i8", "f4"])), seed=seeds(rng, 1)[0])
        for ky in (1, 2, 3, 4, 5):
            yield "interp", dict(kx=1, ky=ky, nsets=int(rng.integers(1, 4)), axis="int", fine="int", oned=True, dtype=str(rng.choice(["", "i8", "f4"])),
                                 seed=seeds(rng, 1)[0])
        for style in ("plain", "antimeridian", "pole", "highlat"):
            for kx, ky, od in ((1, 1, False), (1, 3, False), (1, 3, True), (2, 2, False)):
                yield "geo_interp", dict(kx=kx, ky=ky, oned=od, style=style, seed=seeds(rng, 1)[0])


# ---------------------------------------------------------------- C10
def _sphere_swath(rng, style, rows_km, cols_km):
    """Smooth swath evaluated at arbitrary (row km, col km) positions; no bow tie."""
    lon0, lat0 = {"plain": (rng.uniform(-150, 150), rng.uniform(-60, 60)), "antimeridian": (180.0, rng.uniform(-30, 30)),
                  "pole": (20.0, 89.0)}[style]
    head = rng.uniform(0, 2 * np.pi)

    def at(rk, ck):
        t, s = np.meshgrid(np.deg2rad(np.asarray(rk, "f8") / 111.0), np.deg2rad(np.asarray(ck, "f8") / 111.0), indexing="ij")
        p = np.stack([np.cos(s) * np.cos(t), np.sin(s), np.cos(s) * np.sin(t)])
        ch, sh = np.cos(head), np.sin(head)
        p = np.stack([p[0], ch * p[1] - sh * p[2], sh * p[1] + ch * p[2]])
        la, lo = np.deg2rad(lat0), np.deg2rad(lon0)
        p = np.stack([np.cos(la) * p[0] - np.sin(la) * p[2], p[1], np.sin(la) * p[0] + np.cos(la) * p[2]])
        p = np.stack([np.cos(lo) * p[0] - np.sin(lo) * p[1], np.sin(lo) * p[0] + np.cos(lo) * p[1], p[2]])
        return np.rad2deg(np.arctan2(p[1], p[0])), np.rad2deg(np.arcsin(np.clip(p[2], -1, 1)))
    return at


HELPERS = {"metop20kmto1km": dict(cols=np.array([0] + list(range(4, 2048, 20)) + [2047]), ncols=2048, scan=1, fscan=1, rows=lambda n: np.arange(n),
                                  fr=lambda n: np.arange(n)),
           "modis5kmto1km": dict(cols=np.arange(271) * 5 + 2, ncols=1354, scan=2, fscan=10, rows=lambda n: np.arange(2 * n) * 5 + 2,
                                 fr=lambda n: np.arange(10 * n)),
           "modis1kmto500m": dict(cols=np.arange(1354) * 2, ncols=2708, scan=10, fscan=20, rows=lambda n: np.arange(10 * n) * 2 + 0.5,
                                  fr=lambda n: np.arange(20 * n)),
           "modis1kmto250m": dict(cols=np.arange(1354) * 4, ncols=5416, scan=10, fscan=40, rows=lambda n: np.arange(10 * n) * 4 + 1.5,
                                  fr=lambda n: np.arange(40 * n))}


def run_helper(p):
    import geotiepoints as g
    rng = np.random.default_rng(p["seed"])
    h = HELPERS[p["name"]]
    n = p["scans"]
    km = {"metop20kmto1km": 1.0, "modis5kmto1km": 1.0, "modis1kmto500m": 0.5, "modis1kmto250m": 0.25}[p["name"]]
    at = _sphere_swath(rng, p["style"], None, None)
    half = h["ncols"] / 2.0
    rows, fr = h["rows"](n), h["fr"](n)
    lon, lat = at(rows * km, (h["cols"] - half) * km)
    fun = getattr(g, p["name"])
    with frame(p["name"], lon, lat):
        glon, glat = fun(lon, lat)
    shape = (h["fscan"] * n, h["ncols"])
    if np.shape(glon) != shape or np.shape(glat) != shape:
        fail("size", got=np.shape(glon), expected=shape)
    elon, elat = at(fr * km, (np.arange(h["ncols"]) - half) * km)
    # smooth swath: only the sagitta of the tie cells separates interpolation from the truth (< 30 m)
    same_position(glon, glat, elon, elat, 3e-4, p["name"] + " on a smooth swath")
    # tie points at their positions
    rough_lon, rough_lat, _ = swath(rng, h["scan"], n, len(h["cols"]), p["style"] if p["style"] != "pole" else "plain",
                                    spacing={"metop20kmto1km": 20.0, "modis5kmto1km": 5.0}.get(p["name"], 1.0))
    glon, glat = fun(rough_lon.copy(), rough_lat.copy())
    if p["name"].startswith("modis1km"):
        f = {"modis1kmto500m": 2, "modis1kmto250m": 4}[p["name"]]
        # tie row k lies midway between fine rows f*k + f//2 - 1 and f*k + f//2; along track is linear in between
        xyz = lonlat2xyz(glon, glat)
        mid = (xyz[:, f // 2 - 1::f] + xyz[:, f // 2::f]) / 2
        mid = mid[:, :, h["cols"]]
        tlon, tlat = xyz2lonlat(*(mid / np.linalg.norm(mid, axis=0)), 1.0)
        same_position(tlon, tlat, rough_lon, rough_lat, 3e-6, p["name"] + " ties between fine rows")
    else:
        same_position(glon[np.ix_(h["rows"](n), h["cols"])], glat[np.ix_(h["rows"](n), h["cols"])], rough_lon, rough_lat, 2e-6, p["name"] + " ties")
    # scans are independent
    single = [fun(rough_lon[k * h["scan"]:(k + 1) * h["scan"]].copy(), rough_lat[k * h["scan"]:(k + 1) * h["scan"]].copy())
              for k in range(n)] if h["scan"] > 1 else []
    if single:
        same_position(glon, glat, np.vstack([s[0] for s in single]), np.vstack([s[1] for s in single]), 1e-6, p["name"] + " scans are independent")


def gen_C10(rng, tier):
    for rep in range(N[tier]):
        for style in ("plain", "antimeridian", "pole"):
            for name in HELPERS:
                yield "helper", dict(name=name, scans=int(rng.integers(2, 4)) if name != "metop20kmto1km" else int(rng.integers(2, 30)),
                                     style=style, seed=seeds(rng, 1)[0])
    yield "generic5", dict(scans=3, seed=seeds(rng, 1)[0])


# ---------------------------------------------------------------- C11
def run_splits(p):
    from geotiepoints import get_scene_splits
    for lines in range(p["lo"], p["hi"]):
        for scan in (1, 2, 3, 5, 10, 16):
            for cpus in (1, 2, 3, 4, 5, 7, 8, 16, 40):
                s = list(get_scene_splits(lines, scan, cpus))
                per = max(lines // scan // cpus, 1) * scan
                if s != list(range(per, lines, per)):
                    fail("splits", lines=lines, scan=scan, cpus=cpus, got=s[:6])
                if any(x % scan or not 0 < x < lines for x in s):
                    fail("split not a whole number of scans inside the swath", lines=lines, scan=scan, cpus=cpus, got=s[:6])


class _Res:
    def __init__(self, f):
        self.f = f

    def get(self, timeout=None):
        return self.f()


def fake_pool(order):
    """Pool stand-in: runs the jobs in a chosen order and records what it was given."""
    class P:
        def __init__(self, processes=None, *a, **k):
            self.jobs = []

        def apply_async(self, fun, args=(), kwds={}, *a, **k):
            box = {}
            self.jobs.append((fun, args, kwds, box))
            return _Res(lambda: box["r"])

        def map(self, fun, it, *a, **k):
            return [fun(x) for x in it]

        def starmap(self, fun, it, *a, **k):
            return [fun(*x) for x in it]

        def close(self):
            pass

        def join(self):
            jobs = list(self.jobs)
            if order == "reverse":
                jobs = jobs[::-1]
            elif isinstance(order, int):
                np.random.default_rng(order).shuffle(jobs)
            for fun, args, kwds, box in jobs:
                box["r"] = fun(*args, **kwds)

        def terminate(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    return P


def run_multi(p):
    import geotiepoints as g
    from unittest import mock
    rng = np.random.default_rng(p["seed"])
    lon, lat, _ = swath(rng, 10, p["scans"], 1354, "plain")
    fun = getattr(g, p["name"])
    exp = fun(lon.copy(), lat.copy())
    with frame("multi", lon, lat):
        if p["order"] == "real":
            got = fun(lon, lat, cores=p["cores"])
        else:
            with mock.patch.object(g, "Pool", fake_pool(p["order"])):
                got = fun(lon, lat, cores=p["cores"])
    same_position(got[0], got[1], exp[0], exp[1], 1e-6, "%(name)s with %(cores)d cores" % p)


def gen_C11(rng, tier):
    for lo in range(0, 240 * N[tier], 40):
        yield "splits", dict(lo=lo, hi=lo + 40)
    yield "splits", dict(lo=2030, hi=2040)
    for name in ("modis1kmto500m", "modis1kmto250m"):
        for scans, cores in ((1, 2), (3, 2), (4, 3), (5, 2), (2, 5)):
            if name == "modis1kmto250m" and scans > 3 and tier == "quick":
                continue
            yield "multi", dict(name=name, scans=scans, cores=cores, order=[None, "reverse", 3][scans % 3], seed=seeds(rng, 1)[0])
        yield "multi", dict(name=name, scans=3, cores=2, order="real", seed=seeds(rng, 1)[0])


# ---------------------------------------------------------------- C12, C13
def _single_case(rng, dtype="f8", nr=None, nc=None):
    nr, nc = nr or int(rng.integers(5, 9)), nc or int(rng.integers(5, 9))
    return (axis(rng, nr, 1, 4), axis(rng, nc, 1, 4)), (rng.normal(size=(nr, nc)) * 10).astype(dtype)


def _fine(rng, ax, kind, n=None):
    lo, hi = ax[0], ax[-1]
    if kind == "range":
        return np.arange(hi + 1)
    if kind == "offset":
        return np.arange(lo + 1, hi + 1)
    if kind == "half":
        return np.arange(lo, hi, 0.5)
    if kind == "ties":
        return ax.astype("f8").copy()
    if kind == "random":
        return np.sort(rng.uniform(lo, hi, n or int(rng.integers(3, 30))))
    if kind == "list":
        return [int(v) for v in np.arange(lo, hi + 1)]
    raise ValueError(kind)


def _interpolator(kind, pts, values, kw):
    from geotiepoints import interpolator as m, geointerpolator as g
    return {"grid": lambda: m.SingleGridInterpolator(pts, values, **kw), "spline": lambda: m.SingleSplineInterpolator(pts, values, **kw)}[kind]()


KINDS = [("grid", {}, {}), ("grid", dict(method="nearest"), {}), ("grid", {}, dict(method="nearest")), ("grid", {}, dict(method="cubic_legacy")),
         ("grid", dict(bounds_error=False, fill_value=None), {}), ("grid", dict(bounds_error=False, fill_value=-5.0), {}),
         ("spline", dict(kx=1, ky=1), {}), ("spline", {}, {}), ("spline", dict(kx=2, ky=3), {})]


def run_lazy(p):
    import dask
    import dask.array as da
    rng = np.random.default_rng(p["seed"])
    pts, v = _single_case(rng, p["dtype"])
    kind, ikw, ckw = KINDS[p["kind"]]
    it = _interpolator(kind, pts, v, ikw)
    fp = (_fine(rng, pts[0], p["fine"]), _fine(rng, pts[1], p["fine2"]))
    if ikw.get("fill_value", 0) is None or ikw.get("fill_value", 0) == -5.0:
        fp = (np.arange(-2, pts[0][-1] + 3), np.arange(-1, pts[1][-1] + 2))
    shape = tuple(len(f) for f in fp)
    eager = it.interpolate(fp, **ckw)
    ch = p["chunks"]
    if ch == "odd":
        ch = (_split(rng, shape[0]), _split(rng, shape[1]))
    elif ch == "pair":
        ch = (int(rng.integers(1, shape[0] + 1)), int(rng.integers(1, shape[1] + 1)))
    with frame("lazy", pts[0], pts[1], v, *[np.asarray(f) for f in fp]):
        lazy = it.interpolate(fp, chunks=ch, **ckw)
        if not isinstance(lazy, da.Array):
            fail("not a dask array")
        out = dask.compute(lazy, scheduler="synchronous")[0]
    if lazy.shape != shape or eager.shape != shape or out.shape != shape:
        fail("shape", lazy=lazy.shape, eager=eager.shape, computed=out.shape, expected=shape)
    if lazy.dtype != out.dtype or lazy.dtype != eager.dtype:
        fail("dtype", lazy=str(lazy.dtype), eager=str(eager.dtype), computed=str(out.dtype))
    exp_chunks = da.core.normalize_chunks(ch, shape, dtype=v.dtype)
    if lazy.chunks != exp_chunks:
        fail("chunks", got=lazy.chunks, expected=exp_chunks)
    for pos in np.ndindex(*lazy.numblocks):
        b = lazy.blocks[pos].compute(scheduler="synchronous")
        e = tuple(lazy.chunks[k][pos[k]] for k in range(2))
        if b.shape != e:
            fail("block shape", got=b.shape, expected=e)
        if pos[0] > 1 and pos[1] > 1:
            break
    same(out, eager, 1e-12 if p["dtype"] == "f8" else 1e-6, "lazy = eager", equal_nan=True)


def run_together(p):
    """Lazy results built from the same points and values, computed together."""
    import dask
    rng = np.random.default_rng(p["seed"])
    pts, v = _single_case(rng)
    v2 = v + rng.normal(size=v.shape)
    fp = (_fine(rng, pts[0], "offset"), _fine(rng, pts[1], "offset"))
    fp2 = (fp[0] - 1, fp[1])
    lazy, alone = [], []
    for kind, ikw, ckw in KINDS:
        for vals in (v, v2):
            for f in (fp, fp2):
                it = _interpolator(kind, pts, vals, ikw)
                lazy.append(it.interpolate(f, chunks=p["chunks"], **ckw))
                alone.append(it.interpolate(f, **ckw))
    got = dask.compute(*lazy, scheduler=p["scheduler"])
    for k, (a, b) in enumerate(zip(got, alone)):
        same(a, b, 1e-12, "result %d computed together with others" % k)
    tot = sum(lazy).compute(scheduler="synchronous")
    same(tot, sum(alone), 1e-11, "sum of lazy results")


def run_lazy_geo(p):
    import dask
    from geotiepoints import geointerpolator as g
    rng = np.random.default_rng(p["seed"])
    pts, _ = _single_case(rng)
    lon, lat, _ = swath(rng, len(pts[0]), 1, len(pts[1]), p["style"], spacing=40.0, wobble=False)
    kl = {"geogrid": g.GeoGridInterpolator, "geospline": g.GeoSplineInterpolator}[p["klass"]]
    it = kl(pts, lon, lat)
    fp = (_fine(rng, pts[0], p["fine"]), _fine(rng, pts[1], p["fine"]))
    e = it.interpolate(fp)
    a = dask.compute(*it.interpolate(fp, chunks=p["chunks"]), scheduler="synchronous")
    same_position(a[0], a[1], e[0], e[1], 1e-6, "lazy geo = eager geo")
    shape = (int(pts[0][-1]) + 1, int(pts[1][-1]) + 1)
    e = it.interpolate_to_shape(shape)
    a = dask.compute(*it.interpolate_to_shape(shape, chunks=p["chunks"]), scheduler="synchronous")
    if a[0].shape != shape:
        fail("interpolate_to_shape shape", got=a[0].shape)
    same_position(a[0], a[1], e[0], e[1], 1e-6, "lazy geo to shape = eager")


def gen_C12(rng, tier):
    for rep in range(2 * N[tier]):
        for k in range(len(KINDS)):
            for fine in ("range", "offset", "half", "random", "list"):
                yield "lazy", dict(kind=k, fine=fine, fine2=str(rng.choice(["range", "offset", "half", "random"])), dtype=str(rng.choice(["f8", "f8", "f4"])),
                                   chunks=[int(rng.integers(1, 8)), "odd", "pair"][int(rng.integers(0, 3))], seed=seeds(rng, 1)[0])
    for sch in ("synchronous", "threads"):
        yield "together", dict(chunks=int(rng.integers(3, 8)), scheduler=sch, seed=seeds(rng, 1)[0])
    for rep in range(2 * N[tier]):
        for kl in ("geogrid", "geospline"):
            for style in ("plain", "antimeridian"):
                yield "lazy_geo", dict(klass=kl, style=style, fine=str(rng.choice(["range", "offset", "half"])), chunks=int(rng.integers(1, 9)), seed=seeds(rng, 1)[0])


def run_single(p):
    rng = np.random.default_rng(p["seed"])
    pts, v = _single_case(rng, p["dtype"], p.get("nr"), p.get("nc"))
    tol = 1e-9 if p["dtype"] == "f8" else 2e-5
    kind, ikw, ckw = p["kind"], p["ikw"], p["ckw"]
    with frame("single", pts[0], pts[1], v):
        it = _interpolator(kind, pts, v, ikw)
        at = it.interpolate((pts[0].astype("f8"), pts[1]), **ckw)
        fp = (_fine(rng, pts[0], p["fine"]), _fine(rng, pts[1], p["fine"]))
        if p.get("extra"):
            fp = (np.arange(-3, pts[0][-1] + 4), np.arange(-2, pts[1][-1] + 5))
        r = it.interpolate(fp, **ckw)
    if at.dtype != v.dtype or r.dtype != v.dtype:
        fail("dtype", got=str(r.dtype), expected=str(v.dtype))
    if r.shape != (len(fp[0]), len(fp[1])):
        fail("shape", got=r.shape)
    same(at, v, tol, "tie values reproduced (%s)" % kind)
    method = ckw.get("method", ikw.get("method", "linear"))
    if kind == "grid" and method == "linear":
        same(r, nonuniform_bilinear(v, pts[0], pts[1], *fp), tol, "bilinear")
    if kind == "spline" and ikw.get("kx") == 1 and ikw.get("ky") == 1:
        same(r, nonuniform_bilinear(v, pts[0], pts[1], *fp), tol, "bilinear (spline of degree one)")
    if kind == "grid" and method == "nearest":
        for k in range(2):
            d = np.abs(np.asarray(fp[k])[:, None] - pts[k][None])
            if k == 0:
                ri = [set(np.flatnonzero(np.abs(x - x.min()) < 1e-9)) for x in d]
            else:
                ci = [set(np.flatnonzero(np.abs(x - x.min()) < 1e-9)) for x in d]
        for i in range(len(fp[0])):
            for j in range(len(fp[1])):
                if not any(abs(float(v[a, b]) - float(r[i, j])) < tol * 10 for a in ri[i] for b in ci[j]):
                    fail("nearest", at=(i, j))
    if kind == "grid" and not ikw:
        raises(ValueError, lambda: it.interpolate((np.array([pts[0][-1] + 1.0]), pts[1]), **ckw), "out of bounds without extrapolation")


def run_multiple(p):
    from geotiepoints import interpolator as m
    rng = np.random.default_rng(p["seed"])
    pts, v = _single_case(rng)
    sets = [v + rng.normal(size=v.shape) for _ in range(p["nsets"])]
    kl, sg = {"grid": (m.MultipleGridInterpolator, m.SingleGridInterpolator), "spline": (m.MultipleSplineInterpolator, m.SingleSplineInterpolator)}[p["kind"]]
    fp = (_fine(rng, pts[0], p["fine"]), _fine(rng, pts[1], p["fine"]))
    with frame("multiple", pts[0], pts[1], *sets):
        mi = kl(pts, *sets, **p["ikw"])
        res = list(mi.interpolate(fp, **p["ckw"]))
        shape = (int(pts[0][-1]) + 1, int(pts[1][-1]))
        res2 = list(mi.interpolate_to_shape(shape, **p["ckw"]))
    if len(res) != p["nsets"] or len(res2) != p["nsets"]:
        fail("one result per data set", got=len(res))
    for k, s in enumerate(sets):
        one = sg(pts, s, **p["ikw"])
        same(res[k], one.interpolate(fp, **p["ckw"]), 1e-12, "multiple = single")
        if res2[k].shape != shape:
            fail("interpolate_to_shape", got=res2[k].shape, expected=shape)
        same(res2[k], one.interpolate((np.arange(shape[0]), np.arange(shape[1])), **p["ckw"]), 1e-12, "to shape = fine indices")


def run_geo_multi(p):
    from geotiepoints import geointerpolator as g, interpolator as m
    rng = np.random.default_rng(p["seed"])
    pts, _ = _single_case(rng)
    lon, lat, _ = swath(rng, len(pts[0]), 1, len(pts[1]), p["style"], p["dtype"], spacing=40.0, wobble=False)
    kl, sg = {"grid": (g.GeoGridInterpolator, m.SingleGridInterpolator), "spline": (g.GeoSplineInterpolator, m.SingleSplineInterpolator)}[p["kind"]]
    fp = (_fine(rng, pts[0], p["fine"]), _fine(rng, pts[1], p["fine"]))
    tol = 3e-6 if p["dtype"] == "f8" else 2e-4
    with frame("geo", lon, lat, *pts):
        it = kl(pts, lon, lat, **p["ikw"])
        glon, glat = it.interpolate(fp, **p["ckw"])
        tlon, tlat = it.interpolate((pts[0], pts[1]), **p["ckw"])
    if glon.shape != (len(fp[0]), len(fp[1])):
        fail("shape", got=glon.shape)
    same_position(tlon, tlat, lon, lat, tol, "tie positions reproduced")
    xyz = [sg(pts, np.asarray(c), **p["ikw"]).interpolate(fp, **p["ckw"]) for c in lonlat2xyz(lon, lat, R_GEO)]
    same_position(glon, glat, *xyz2lonlat(*xyz, R_GEO), tol, "components interpolated one by one")
    if np.isnan(glon).any() or np.isnan(glat).any():
        fail("NaN")

    class Def:
        def get_cartesian_coords(self):
            return np.moveaxis(lonlat2xyz(lon, lat, R_GEO), 0, -1)
    g2 = kl(pts, Def(), **p["ikw"]).interpolate(fp, **p["ckw"])
    same_position(g2[0], g2[1], glon, glat, tol, "swath definition input")
    raises(ValueError, lambda: kl(pts, lon, lat, lat), "three data arrays")
    shape = (int(pts[0][-1]) + 1, int(pts[1][-1]))
    s1 = it.interpolate_to_shape(shape, **p["ckw"])
    s2 = it.interpolate((np.arange(shape[0]), np.arange(shape[1])), **p["ckw"])
    if s1[0].shape != shape:
        fail("interpolate_to_shape", got=s1[0].shape, expected=shape)
    same_position(s1[0], s1[1], s2[0], s2[1], 1e-6, "to shape")


def gen_C13(rng, tier):
    for rep in range(4 * N[tier]):
        for kind, ikw, ckw, extra in [("grid", {}, {}, False), ("grid", dict(method="nearest"), {}, False), ("grid", {}, dict(method="nearest"), False),
                                      ("grid", dict(bounds_error=False, fill_value=None), {}, True), ("grid", dict(method="nearest", bounds_error=False, fill_value=None), {}, True),
                                      ("spline", dict(kx=1, ky=1), {}, False), ("spline", {}, {}, False), ("spline", dict(kx=1, ky=3), {}, False),
                                      ("spline", dict(kx=4, ky=2), {}, False), ("grid", {}, dict(method="cubic_legacy"), False)]:
            yield "single", dict(kind=kind, ikw=ikw, ckw=ckw, extra=extra, fine=str(rng.choice(["half", "range", "random", "ties", "offset"])),
                                 dtype=str(rng.choice(["f8", "f8", "f4"])), seed=seeds(rng, 1)[0])
        for kind, ikw, ckw in [("grid", {}, {}), ("grid", dict(method="nearest"), {}), ("grid", {}, dict(method="nearest")), ("spline", {}, {}), ("spline", dict(kx=1, ky=2), {})]:
            for ns in (1, 2, 3):
                yield "multiple", dict(kind=kind, ikw=ikw, ckw=ckw, nsets=ns, fine=str(rng.choice(["half", "range", "random"])), seed=seeds(rng, 1)[0])
            for style in ("plain", "antimeridian", "highlat"):
                if "nearest" in (ikw.get("method"), ckw.get("method")) and style != "plain":
                    continue
                yield "geo_multi", dict(kind=kind, ikw=ikw, ckw=ckw, style=style, dtype=str(rng.choice(["f8", "f8", "f4"])),
                                        fine=str(rng.choice(["half", "range", "random"])), seed=seeds(rng, 1)[0])


# ---------------------------------------------------------------- C14, C15
def vii_oracle(a, ts, f):
    n = a.shape[0] // ts
    y, x = np.arange((ts - 1) * f) / f, np.arange((a.shape[1] - 1) * f) / f
    return np.vstack([bilinear(a[k * ts:(k + 1) * ts], y, x) for k in range(n)])


def run_vii(p):
    import xarray as xr
    from geotiepoints.viiinterpolator import tie_points_interpolation
    rng = np.random.default_rng(p["seed"])
    ts, f, n, c = p["ts"], p["factor"], p["scans"], p["act"]
    sets = [rng.normal(size=(n * ts, c)).astype(p["dtype"]) * 10 for _ in range(p["nsets"])]
    dims = ("alt", "act") if p["dims"] else ("y", "x")
    if p.get("dask"):
        import dask.array as da
        das = [xr.DataArray(da.from_array(s, chunks=-1), dims=dims) for s in sets]
    else:
        das = [xr.DataArray(s.copy(), dims=dims) for s in sets]
    if p.get("coords"):
        das = [d.assign_coords({dims[0]: np.arange(n * ts) * 3.0, dims[1]: np.arange(c) + 7}) for d in das]
    with frame("vii", *([] if p.get("dask") else das)):
        res = tie_points_interpolation(das, ts, f)
    if len(res) != len(sets):
        fail("one result per array")
    for r, s in zip(res, sets):
        if r.shape != (n * (ts - 1) * f, (c - 1) * f) or r.dims != dims:
            fail("shape/dims", got=(r.shape, r.dims))
        same(np.asarray(r), vii_oracle(s.astype("f8"), ts, f), 1e-9 if p["dtype"] == "f8" else 1e-5, "bilinear in own scan")
    if ts > 1 and n * ts > 1:
        bad = xr.DataArray(np.ones((n * ts + 1, c)), dims=dims)
        raises(ValueError, lambda: tie_points_interpolation([bad], ts, f), "partial scan")
    bad = xr.DataArray(np.ones((n * ts, c + 1)), dims=dims)
    raises(ValueError, lambda: tie_points_interpolation([das[0], bad], ts, f), "differing shapes")
    bad = xr.DataArray(np.ones((n * ts, c)), dims=("p", "q"))
    raises(ValueError, lambda: tie_points_interpolation([das[0], bad], ts, f), "differing dimension names")
    for names in (dims[::-1], (dims[0], "q"), ("p", dims[1])):
        for m in (n * ts, c):
            # square arrays too: nothing but the names tells the orientation
            sq = [xr.DataArray(np.ones((n * ts, m)), dims=dims), xr.DataArray(np.ones((n * ts, m)), dims=names)]
            raises(ValueError, lambda: tie_points_interpolation(sq, ts, f), "differing dimension names %s" % (names,))
            raises(ValueError, lambda: tie_points_interpolation(sq[:1] + sq, ts, f), "differing dimension names in the third array")
    k = int(rng.integers(0, n))
    s2 = sets[0].copy()
    s2[k * ts:(k + 1) * ts] = rng.normal(size=(ts, c)) * 1000
    r2 = np.asarray(tie_points_interpolation([xr.DataArray(s2, dims=dims)], ts, f)[0])
    keep = np.ones(r2.shape[0], bool)
    keep[k * (ts - 1) * f:(k + 1) * (ts - 1) * f] = False
    same(r2[keep], np.asarray(res[0])[keep], 1e-12 if p["dtype"] == "f8" else 1e-6, "other scans unaffected")


def gen_C14(rng, tier):
    for rep in range(25 * N[tier]):
        yield "vii", dict(ts=int(rng.integers(2, 6)), factor=int(rng.integers(1, 9)), scans=int(rng.integers(1, 5)), act=int(rng.integers(2, 7)),
                          nsets=int(rng.integers(1, 4)), dtype=str(rng.choice(["f8", "f8", "f4"])), dims=bool(rng.random() < .5),
                          coords=bool(rng.random() < .3), dask=bool(rng.random() < .2), seed=seeds(rng, 1)[0])


def run_vii_geo(p):
    import xarray as xr
    from geotiepoints.viiinterpolator import tie_points_geo_interpolation, tie_points_interpolation, MEAN_EARTH_RADIUS
    rng = np.random.default_rng(p["seed"])
    ts, f, n, c = p["ts"], p["factor"], p["scans"], p["act"]
    shape = (n * ts, c)
    kind = p["kind"]
    if kind == "low":
        lon = rng.uniform(-20, 20) + np.cumsum(rng.uniform(0.1, 2, shape), axis=1)
        lat = rng.uniform(-20, 20) + np.cumsum(rng.uniform(-1, 1, shape), axis=0)
        lat = np.clip(lat, -59.9, 59.9)
    elif kind == "lowwide":       # spans nearly, but not more than 180 degrees
        lon = np.linspace(-85, 85, c)[None] + rng.uniform(-4, 4, shape)
        lat = rng.uniform(-50, 50, shape)
    elif kind == "sixty":         # exactly at the threshold: still direct
        lon, lat = rng.uniform(0, 60, shape), rng.uniform(-60, 60, shape)
        lat[0, 0], lat[-1, -1] = 60.0, -60.0
    elif kind == "span180":
        lon, lat = rng.uniform(-90, 90, shape), rng.uniform(-50, 50, shape)
        lon[0, 0], lon[-1, -1] = -90.0, 90.0
    elif kind == "highone":       # one tie point above the threshold
        lon = 10 + np.cumsum(rng.uniform(0.1, 2, shape), axis=1)
        lat = rng.uniform(50, 59, shape)
        lat.flat[int(rng.integers(0, lat.size))] = 60.01
    elif kind == "southone":
        lon = 10 + np.cumsum(rng.uniform(0.1, 2, shape), axis=1)
        lat = -rng.uniform(50, 59, shape)
        lat.flat[int(rng.integers(0, lat.size))] = -60.01
    elif kind == "antimeridian":
        lon, lat, _ = swath(rng, ts, n, c, "antimeridian", spacing=100.0)
    elif kind == "pole":
        lon, lat, _ = swath(rng, ts, n, c, "pole", spacing=100.0)
    elif kind == "amlow":         # symmetric around the antimeridian: midpoints on it
        lon = np.where(np.arange(c)[None] % 2 == 0, 179.0, -179.0) + np.zeros(shape)
        lat = np.linspace(-5, 5, n * ts)[:, None] + np.zeros(shape)
    elif kind == "polemid":
        lon = np.where(np.arange(c)[None] % 2 == 0, 10.0, -170.0) + np.zeros(shape)
        lat = np.full(shape, 89.0)
    LO, LA = xr.DataArray(lon, dims=("y", "x")), xr.DataArray(lat, dims=("y", "x"))
    args = {}
    latthr = 60.0
    if p.get("thr"):
        latthr = p["thr"]
        args = dict(lat_threshold_use_cartesian=latthr)
    zthr = p.get("zthr", 0.8)
    if zthr != 0.8:
        args["z_threshold_use_xy"] = zthr
    with frame("vii geo", LO, LA):
        glon, glat = tie_points_geo_interpolation(LO, LA, ts, f, **args)
    glon, glat = np.asarray(glon), np.asarray(glat)
    cart = np.abs(lat).max() > latthr or lon.max() - lon.min() > 180
    if cart:
        xyz = [vii_oracle(q, ts, f) for q in lonlat2xyz(lon, lat, MEAN_EARTH_RADIUS)]
        near = np.abs(np.abs(xyz[2]) / MEAN_EARTH_RADIUS - zthr) < 1e-7
        same_position(glon, glat, *xyz2lonlat(*xyz, MEAN_EARTH_RADIUS, zthr), 3e-6, "Cartesian frame (%s)" % kind, skip=near)
    else:
        same(glon, vii_oracle(lon, ts, f), 1e-9, "longitudes interpolated directly (%s)" % kind)
        same(glat, vii_oracle(lat, ts, f), 1e-9, "latitudes interpolated directly (%s)" % kind)
    if np.isnan(glon).any() or np.isnan(glat).any():
        fail("NaN (%s)" % kind)
    rows = np.arange(n * (ts - 1)) * f
    tie_rows = np.concatenate([np.arange(k * ts, (k + 1) * ts - 1) for k in range(n)])
    same_position(glon[rows][:, ::f], glat[rows][:, ::f], lon[tie_rows][:, :-1], lat[tie_rows][:, :-1], 3e-6, "tie positions (%s)" % kind)
    raises(ValueError, lambda: tie_points_geo_interpolation(LO, xr.DataArray(np.ones((shape[0], c + 1)), dims=("y", "x")), ts, f), "differing shapes")
    raises(ValueError, lambda: tie_points_geo_interpolation(LO, xr.DataArray(np.ones((shape[0] + ts, c)), dims=("y", "x")), ts, f), "differing shapes")


def gen_C15(rng, tier):
    for rep in range(3 * N[tier]):
        for kind in ("low", "lowwide", "sixty", "span180", "highone", "southone", "antimeridian", "pole", "amlow", "polemid"):
            yield "vii_geo", dict(kind=kind, ts=int(rng.integers(2, 5)), factor=int(rng.integers(1, 5)) * 2, scans=int(rng.integers(1, 4)),
                                  act=int(rng.integers(3, 6)), seed=seeds(rng, 1)[0],
                                  thr=float(rng.choice([0, 0, 30.0, 75.0])), zthr=float(rng.choice([0.8, 0.8, 0.5])))


# ---------------------------------------------------------------- C16
def run_frame(p):
    import geotiepoints as g
    import xarray as xr
    from geotiepoints import geointerpolator as gi, interpolator as it, basic_interpolator as b, multilinear as ml, viiinterpolator as v
    rng = np.random.default_rng(p["seed"])
    name = p["name"]

    def twice(fun, *arrays):
        with frame(name, *arrays):
            r1 = fun()
            r1 = [np.array(r) for r in r1]
            r2 = [np.asarray(r) for r in fun()]
        for x, y in zip(r1, r2):
            if not np.array_equal(x, y, equal_nan=True):
                fail(name + ": second call differs")
    if name.startswith("angle") or name.startswith("simple"):
        algo, c, f, order, dt = name.split("-")
        c, f = int(c), int(f)
        S = 10 if c == 1000 else 2
        lon, lat, satz = swath(rng, S, 2, 1354 if c == 1000 else 271, "plain", dt)
        arrays = [lon, lat, satz] if algo == "angle" else [lon, lat]
        if p["seed"] % 2:
            for a in arrays:
                a[int(rng.integers(0, a.shape[0])), int(rng.integers(0, a.shape[1]))] = rng.choice([np.nan, np.inf])
        if order == "F":
            arrays = [np.asfortranarray(a) for a in arrays]
        if order == "strided":
            arrays = [np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, ::2] for a in arrays]
        fun = angle_fun(c, f) if algo == "angle" else simple_fun(f)
        twice(lambda: fun(*arrays), *arrays)
    elif name in HELPERS:
        h = HELPERS[name]
        lon, lat, _ = swath(rng, h["scan"], 2, len(h["cols"]), "plain", spacing={"metop20kmto1km": 20.0, "modis5kmto1km": 5.0}.get(name, 1.0))
        twice(lambda: getattr(g, name)(lon, lat), lon, lat)
    elif name == "generic5":
        a, c = rng.normal(size=(4, 271)), rng.normal(size=(4, 271))
        twice(lambda: it.generic_modis5kmto1km(a, c), a, c)
    elif name in ("Interpolator", "GeoInterpolator"):
        rows, cols, hr, hc, per = _grid_case(rng, 2)
        lon, lat = rng.uniform(-170, 170, (len(rows), len(cols))), rng.uniform(-80, 80, (len(rows), len(cols)))
        kl = {"Interpolator": it.Interpolator, "GeoInterpolator": gi.GeoInterpolator}[name]
        lst = [lon, lat]

        def go():
            o = kl(lst, (rows, cols), (hr, hc), 1, 3, chunk_size=per)
            o.fill_borders("y", "x")
            r = [np.array(q) for q in o.interpolate()]
            r2 = o.interpolate()
            for q, w in zip(r, r2):
                if not np.array_equal(q, w, equal_nan=True):
                    fail(name + ": second interpolate() on the same object differs")
            return r
        twice(go, lon, lat, rows, cols, hr, hc)
        if len(lst) != 2 or lst[0] is not lon or lst[1] is not lat:
            fail("list of data sets was modified")

        def oned():
            o = kl(lst, (rows, cols), (rows.copy(), hc[cols[0]:cols[-1]]), 1, 3)
            return o.interpolate()
        twice(oned, lon, lat, rows, cols, hr, hc)
    elif name in ("grid", "spline", "geogrid", "geospline"):
        pts, vals = _single_case(rng)
        fp = (_fine(rng, pts[0], "half"), _fine(rng, pts[1], "half"))
        lon, lat = rng.uniform(-60, 60, vals.shape), rng.uniform(-60, 60, vals.shape)
        kl = {"grid": it.MultipleGridInterpolator, "spline": it.MultipleSplineInterpolator, "geogrid": gi.GeoGridInterpolator, "geospline": gi.GeoSplineInterpolator}[name]
        if name in ("grid", "geogrid"):
            lon[1, 1], lat[0, 1] = np.nan, np.nan
        obj = kl(pts, lon, lat)
        twice(lambda: list(obj.interpolate(fp)), lon, lat, *pts, *fp)
        twice(lambda: [a.compute() for a in obj.interpolate(fp, chunks=4)], lon, lat, *pts, *fp)
        twice(lambda: list(kl(pts, lon, lat).interpolate_to_shape((5, 5))), lon, lat, *pts, *fp)
    elif name in ("vii", "viigeo"):
        a = xr.DataArray(rng.uniform(50, 70, (6, 4)), dims=("y", "x"), coords={"y": np.arange(6) * 2.0, "x": np.arange(4.0)})
        c = xr.DataArray(rng.uniform(50, 70, (6, 4)), dims=("y", "x"))
        lst = [a, c]
        if name == "vii":
            twice(lambda: v.tie_points_interpolation(lst, 3, 4), a, c)
            if len(lst) != 2 or lst[0] is not a or lst[1] is not c:
                fail("list modified")
        else:
            twice(lambda: v.tie_points_geo_interpolation(a, c, 3, 4), a, c)
        if not np.array_equal(a.coords["y"].values, np.arange(6) * 2.0) or "y" in c.coords:
            fail("coordinates of the input were modified")
    elif name == "multilinear":
        for d in (1, 2, 3):
            o = np.array([3] * d)
            smin, smax = np.zeros(d), np.ones(d)
            vals = rng.normal(size=(2, 3 ** d))
            s = rng.uniform(-.5, 1.5, (d, 7))
            if p["seed"] % 2:
                s[0, 3], vals[1, 1] = np.nan, np.nan
                s[-1, 5] = np.inf
            m = ml.MultilinearInterpolator(smin, smax, o, values=vals)
            g1 = m.grid.copy()
            twice(lambda: [m(s), m.grid], smin, smax, o, vals, s)
            if not np.array_equal(m.grid, g1):
                fail("grid changed")
    elif name == "basic":
        a, c = rng.normal(size=(3, 4)), rng.normal(size=(3, 4))
        a[1, 2] = np.nan
        rows, cols = np.array([0, 2, 5]), np.array([0, 1, 4, 6])
        obj = b.BasicSatelliteInterpolator(cols, rows, a, c)
        twice(lambda: obj.interpolate(), a, c, rows, cols)
    elif name == "conv":
        lon, lat = rng.uniform(-180, 180, (5, 6)), rng.uniform(-90, 90, (5, 6))
        lon[2, 3], lat[1, 1] = np.nan, np.nan
        twice(lambda: gi.lonlat2xyz(lon, lat), lon, lat)
        x, y, z = gi.lonlat2xyz(lon, lat)
        twice(lambda: gi.xyz2lonlat(x, y, z), x, y, z)
    else:
        raise ValueError(name)


def gen_C16(rng, tier):
    names = ["angle-%d-%d-%s-%s" % (c, f, o, dt) for c, f in PAIRS for o, dt in (("C", "f8"), ("C", "f4"), ("F", "f8"), ("strided", "f4"))]
    names += ["simple-1000-%d-%s-%s" % (f, o, dt) for f in (500, 250) for o, dt in (("C", "f8"), ("C", "f4"), ("F", "f8"), ("strided", "f4"))]
    names += list(HELPERS) + ["generic5", "Interpolator", "GeoInterpolator", "grid", "spline", "geogrid", "geospline", "vii", "viigeo", "multilinear", "basic", "conv"]
    names += ["multilinear"]
    for rep in range(N[tier]):
        for k, n in enumerate(names):
            if tier == "quick" and n.startswith("angle") and "-250-" in n and not n.endswith("-C-f8"):
                continue
            yield "frame", dict(name=n, seed=seeds(rng, 1)[0] // 2 * 2 + k % 2)


# ---------------------------------------------------------------- C17
def run_finite(p):
    lon, lat, satz = modis_case(p)
    if p["algo"] == "angle":
        res = angle_fun(p["coarse"], p["fine"])(lon, lat, satz)
    else:
        res = simple_fun(p["fine"])(lon, lat)
    for r in res:
        if not np.isfinite(r).all():
            fail("non-finite results", n=int((~np.isfinite(r)).sum()), first=[int(i) for i in np.argwhere(~np.isfinite(r))[0]])


def run_finite_const(p):
    """Constant swaths at special positions."""
    lon, lat = special_positions()
    for a, b in zip(lon.ravel()[::7], lat.ravel()[::7]):
        if p["algo"] == "angle":
            res = angle_fun(5000, 1000)(np.full((2, 271), a), np.full((2, 271), b), np.full((2, 271), p["z"]))
        else:
            res = simple_fun(250)(np.full((10, 3), a), np.full((10, 3), b))
        for r in res:
            if not np.isfinite(r).all():
                fail("non-finite at constant position", lon=float(a), lat=float(b))


def gen_C17(rng, tier):
    for rep in range(N[tier]):
        for c, f in PAIRS:
            for style, zen in (("equator", "zero"), ("pole", "constant"), ("antimeridian", "symmetric"), ("plain", "steps"), ("highlat", "zero"), ("pole", "zero"), ("highlat", "noise"), ("pole", "noise")):
                if tier == "quick" and f == 250 and style in ("plain", "highlat"):
                    continue
                yield "finite", dict(algo="angle", coarse=c, fine=f, width=1354 if c == 1000 else int(rng.choice([270, 271])), style=style, zenith=zen, scans=1,
                                     dtype=str(rng.choice(["f8", "f4"])), seed=seeds(rng, 1)[0])
        for f in (500, 250):
            for style in ("equator", "pole", "antimeridian", "highlat"):
                yield "finite", dict(algo="simple", coarse=1000, fine=f, width=int(rng.integers(2, 300)), style=style, scans=2, dtype=str(rng.choice(["f8", "f4"])),
                                     seed=seeds(rng, 1)[0])
        for z in (0.0, 30.0, 84.0):
            yield "finite_const", dict(algo="angle", z=z)
        yield "finite_const", dict(algo="simple", z=0.0)
        for algo in ("angle", "simple"):
            for c, f in ((1000, 500), (5000, 1000)):
                if algo == "simple" and c == 5000:
                    continue
                yield "modis_scanframe", dict(algo=algo, coarse=c, fine=f, width=1354 if c == 1000 else 271, scans=3, style="plain", nan=True, which=1, seed=seeds(rng, 1)[0])
        for impl in ("geo", "vii"):
            yield "roundtrip", dict(impl=impl, seed=None)
            yield "backward", dict(impl=impl, seed=seeds(rng, 1)[0], thr=0.8, low=True, scale=1.0)
        for style in ("antimeridian", "pole"):
            yield "geo_interp", dict(kx=1, ky=3, oned=False, style=style, seed=seeds(rng, 1)[0])
        for kind in ("amlow", "polemid", "pole"):
            yield "vii_geo", dict(kind=kind, ts=3, factor=2, scans=2, act=4, seed=seeds(rng, 1)[0])
        for w in ("am", "am0", "pole", "spole"):
            yield "modis_midpoints", dict(where=w, seed=1)


# ---------------------------------------------------------------- C18
def run_basic(p):
    from geotiepoints.basic_interpolator import BasicSatelliteInterpolator
    rng = np.random.default_rng(p["seed"])
    rows, cols = axis(rng, p["nr"], 1, p.get("gap", 5)), axis(rng, p["nc"], 1, p.get("gap", 5))
    lat, lon = rng.normal(size=(p["nr"], p["nc"])) * 20, rng.normal(size=(p["nr"], p["nc"])) * 100
    if p.get("int"):
        lat, lon = np.round(lat).astype(int), np.round(lon).astype(int)
    r, c = (rows, cols) if not p.get("lists") else (rows.tolist(), cols.tolist())
    with frame("basic", rows, cols, lat, lon):
        glat, glon = BasicSatelliteInterpolator(c, r, lat, lon).interpolate()
    for g, t, what in ((glat, lat, "latitude"), (glon, lon, "longitude")):
        g = np.asarray(g)
        if g.shape != (rows[-1] + 1, cols[-1] + 1):
            fail("shape", got=g.shape, expected=(int(rows[-1]) + 1, int(cols[-1]) + 1))
        e = nonuniform_bilinear(t, rows, cols, np.arange(rows[-1] + 1), np.arange(cols[-1] + 1))
        same(g, e, 1e-9, "basic " + what)


def gen_C18(rng, tier):
    for rep in range(25 * N[tier]):
        yield "basic", dict(nr=int(rng.integers(2, 8)), nc=int(rng.integers(2, 8)), int=bool(rng.random() < .2), lists=bool(rng.random() < .3),
                           gap=int(rng.choice([5, 5, 20, 300])), seed=seeds(rng, 1)[0])
