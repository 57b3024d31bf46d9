"""Shared pieces of the bounded runtime conformance harness (runs under /opt/venv/bin/python)."""
import contextlib
import warnings

import numpy as np

warnings.simplefilter("ignore")
R_GEO = 6370997.0


class Violation(Exception):
    """The real code disagreed with the specification."""


def fail(msg, **kw):
    raise Violation(msg + (" " + repr(kw) if kw else ""))


def unit(lon, lat):
    lon, lat = np.deg2rad(np.asarray(lon, "f8")), np.deg2rad(np.asarray(lat, "f8"))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])


def same_position(lon, lat, elon, elat, tol_deg, what, skip=None):
    """Both positions equal on the sphere (degrees of arc), NaN pattern included."""
    lon, lat = np.asarray(lon), np.asarray(lat)
    if lon.shape != np.shape(elon) or lat.shape != np.shape(elat):
        fail(what + ": shape", got=(lon.shape, lat.shape), expected=(np.shape(elon), np.shape(elat)))
    u, v = unit(lon, lat), unit(elon, elat)
    d = np.rad2deg(np.sqrt(((u - v) ** 2).sum(0)))
    gn, en = np.isnan(u).any(0), np.isnan(v).any(0)
    ok = np.where(gn | en, gn == en, d <= tol_deg)
    if skip is not None:
        ok = ok | skip
    # a longitude has to be a longitude and a latitude a latitude
    with np.errstate(invalid="ignore"):
        ok &= ~((np.abs(lon) > 180.0001) | (np.abs(lat) > 90.0001))
    if not ok.all():
        idx = tuple(int(i) for i in np.argwhere(~ok)[0])
        fail(what, n_bad=int((~ok).sum()), first=idx, got=(float(lon[idx]), float(lat[idx])),
             expected=(float(np.asarray(elon)[idx]), float(np.asarray(elat)[idx])))


def same(a, e, tol, what, equal_nan=False):
    a, e = np.asarray(a), np.asarray(e)
    if a.shape != e.shape:
        fail(what + ": shape", got=a.shape, expected=e.shape)
    scale = 1.0
    if e.size:
        fin = np.abs(e[np.isfinite(e)]) if e.dtype.kind == "f" else np.abs(e)
        scale = max(1.0, float(fin.max())) if fin.size else 1.0
    d = np.abs(a.astype("f8") - e.astype("f8"))
    ok = d <= tol * scale
    if equal_nan:
        ok |= np.isnan(a) & np.isnan(e)
    if not ok.all():
        idx = tuple(int(i) for i in np.argwhere(~ok)[0])
        fail(what, n_bad=int((~ok).sum()), first=idx, got=float(a[idx]), expected=float(e[idx]))


def raises(exc, fun, what):
    try:
        fun()
    except exc:
        return
    except Exception as e:  # noqa
        fail(what + ": raised %s instead of %s" % (type(e).__name__, exc), error=str(e)[:200])
    fail(what + ": did not raise")


@contextlib.contextmanager
def frame(what, *arrays):
    """Frame condition: the arrays are unchanged by the block."""
    def raw(a):
        a = getattr(a, "data", a) if hasattr(a, "dims") else a
        return np.asarray(a)
    before = [raw(a).copy() for a in arrays]
    yield
    for n, (a, b) in enumerate(zip(arrays, before)):
        a = raw(a)
        if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
            fail(what + ": input %d was modified" % n)


@contextlib.contextmanager
def poisoned_empty():
    """np.empty hands out NaN-filled (or huge) arrays, so that an unwritten element shows."""
    real = np.empty

    def empty(*args, **kw):
        a = real(*args, **kw)
        if isinstance(a, np.ndarray) and a.dtype.kind == "f":
            a.fill(np.nan)
        elif isinstance(a, np.ndarray) and a.dtype.kind == "i":
            a.fill(np.iinfo(a.dtype).min)
        return a
    np.empty = empty
    try:
        yield
    finally:
        np.empty = real


def axis(rng, n, lo=1, hi=6, start=0, kind="int"):
    """Strictly increasing axis of n values."""
    ax = start + np.concatenate(([0], np.cumsum(rng.integers(lo, hi + 1, n - 1)))) if n > 1 else np.array([start])
    if kind == "float":
        ax = ax * 0.25 + 0.125
    return ax


# ---------------------------------------------------------------- spheres
def lonlat2xyz(lon, lat, radius=1.0):
    return radius * unit(lon, lat)


def xyz2lonlat(x, y, z, radius, thr=0.8, low_lat_z=True):
    x, y, z = (np.asarray(a, "f8") for a in (x, y, z))
    lon = np.rad2deg(np.arctan2(y, x))
    r = np.sqrt(x * x + y * y)
    lat = np.sign(z) * (90 - np.rad2deg(np.arcsin(r / radius)))
    if low_lat_z:
        with np.errstate(invalid="ignore"):
            lat = np.where(np.abs(z) < thr * radius, np.rad2deg(np.arcsin(np.clip(z / radius, -1, 1))), lat)
    return lon, lat


# ---------------------------------------------------------------- swaths
def swath(rng, rows_per_scan, scans, width, style, dtype="f8", spacing=None, wobble=True):
    """A synthetic whisk-broom swath: lon, lat, zenith."""
    rows = rows_per_scan * scans
    km = {10: 1.0, 2: 5.0}.get(rows_per_scan, 1.0) if spacing is None else spacing
    # local tangent frame: along track angle t, across track angle s (degrees)
    c = (np.arange(width) - (width - 1) / 2.0)
    r = np.arange(rows)
    deg = km / 111.0
    s = c[None, :] * deg * (1 + 0.3 * (c[None, :] / width) ** 2) + np.zeros((rows, 1))
    t = (r[:, None] * deg) + 0 * s
    # bow tie: the scan grows with distance from nadir; scans do not join smoothly
    centre = (r // rows_per_scan * rows_per_scan + (rows_per_scan - 1) / 2.0)[:, None] * deg
    t = centre + (t - centre) * (1 + 0.8 * (2 * c[None, :] / width) ** 2)
    if wobble:
        t = t + rng.normal(0, 0.1, (scans,)).repeat(rows_per_scan)[:, None] * deg
        s = s + rng.normal(0, 0.1, (scans,)).repeat(rows_per_scan)[:, None] * deg
    if style == "rough":
        s = s + rng.normal(0, 0.15 * deg, s.shape)
        t = t + rng.normal(0, 0.15 * deg, t.shape)
    s, t = np.deg2rad(s), np.deg2rad(t)
    p = np.stack([np.cos(s) * np.cos(t), np.sin(s), np.cos(s) * np.sin(t)])
    lon0, lat0 = {"plain": (rng.uniform(-150, 150), rng.uniform(-60, 60)), "rough": (rng.uniform(-150, 150), rng.uniform(-60, 60)),
                  "antimeridian": (180.0, rng.uniform(-30, 30)), "pole": (rng.uniform(-180, 180), rng.choice([90., -90.])),
                  "equator": (0.0, 0.0), "highlat": (rng.uniform(-180, 180), rng.choice([53.0, -53.0]))}[style]
    head = rng.uniform(0, 2 * np.pi) if style != "equator" else 0.0
    ch, sh = np.cos(head), np.sin(head)
    p = np.stack([p[0], ch * p[1] - sh * p[2], sh * p[1] + ch * p[2]])
    la, lo = np.deg2rad(lat0), np.deg2rad(lon0)
    p = np.stack([np.cos(la) * p[0] - np.sin(la) * p[2], p[1], np.sin(la) * p[0] + np.cos(la) * p[2]])
    p = np.stack([np.cos(lo) * p[0] - np.sin(lo) * p[1], np.sin(lo) * p[0] + np.cos(lo) * p[1], p[2]])
    lon, lat = np.rad2deg(np.arctan2(p[1], p[0])), np.rad2deg(np.arcsin(np.clip(p[2], -1, 1)))
    ang = 65.0 * np.abs(2 * c / max(width - 1, 1))[None, :] + 0.0 * t
    satz = np.abs(ang + (r[:, None] % rows_per_scan) * 0.003 + rng.uniform(0, 0.4, (scans,)).repeat(rows_per_scan)[:, None])
    # (zenith angles come as scaled integers, 0.01 degree)
    return lon.astype(dtype), lat.astype(dtype), np.round(satz, 2).astype(dtype)


def zenith(rng, kind, shape, rows_per_scan, dtype="f8"):
    """Zenith angles as the instrument files carry them: multiples of 0.01 degree (so equal or clearly different)."""
    z = np.round(_zenith(rng, kind, shape, rows_per_scan), 2).astype(dtype)
    if kind == "noise":      # ... or equal up to rounding errors
        z[:, ::2] *= 1 + np.finfo(dtype).eps * rng.choice([1, 16, 1000])
    return z


def _zenith(rng, kind, shape, rows_per_scan, dtype="f8"):
    rows, width = shape
    c = np.abs(np.linspace(-1, 1, width))[None, :] * 65 + np.zeros((rows, 1))
    if kind == "zero":
        return np.zeros(shape, dtype)
    if kind == "noise":
        return np.full(shape, rng.choice([1.0, 20.0, 40.0, 60.0]), dtype)
    if kind == "constant":
        return np.full(shape, 33.25, dtype)
    if kind == "symmetric":      # equal pair in the middle, as around nadir
        return c.astype(dtype)
    if kind == "steps":          # pairs of equal angles, incl. zeros
        z = np.floor(c / 5) * 5
        return z.astype(dtype)
    if kind == "ramp":
        return (5 + 60 * np.linspace(0, 1, width)[None, :] + 0.01 * np.arange(rows)[:, None]).astype(dtype)
    if kind == "perscan":
        return (c * rng.uniform(0.5, 1.0, (rows // rows_per_scan,)).repeat(rows_per_scan)[:, None] + 0.1).astype(dtype)
    raise ValueError(kind)


# ---------------------------------------------------------------- oracles
def bilinear(values, y, x):
    """values on nodes 0..; y, x 1-d real coordinates; outermost cells continue linearly."""
    r, c = values.shape[:2]
    yi = np.clip(np.floor(y).astype(int), 0, r - 2)
    xi = np.clip(np.floor(x).astype(int), 0, c - 2)
    ty = (y - yi).reshape((-1, 1) + (1,) * (values.ndim - 2))
    tx = (x - xi).reshape((1, -1) + (1,) * (values.ndim - 2))
    a = values[yi][:, xi]
    b = values[yi][:, xi + 1]
    d = values[yi + 1][:, xi]
    e = values[yi + 1][:, xi + 1]
    return (1 - ty) * ((1 - tx) * a + tx * b) + ty * ((1 - tx) * d + tx * e)


def nonuniform_bilinear(values, rows, cols, fy, fx):
    """Bilinear on increasing axes, linear continuation outside."""
    def coord(ax, f):
        ax, f = np.asarray(ax, "f8"), np.asarray(f, "f8")
        i = np.clip(np.searchsorted(ax, f, side="right") - 1, 0, len(ax) - 2)
        return i + (f - ax[i]) / (ax[i + 1] - ax[i])
    return bilinear(np.asarray(values, "f8"), coord(rows, fy), coord(cols, fx))


def modis_angle_oracle(lon, lat, satz, coarse, fine):
    R, H = 6370.997, 709.0
    f1 = 1000 // fine
    S = {1000: 10, 5000: 2}[coarse]
    f = f1 * coarse // 1000
    sw = coarse // 1000
    W = lon.shape[1]
    fw = 1354 * f1
    n = lon.shape[0] // S
    i, j = np.arange(S * f), np.arange(fw)
    if coarse == 1000:
        ypos, xpos = (i + 0.5) / f - 0.5, j / f
    else:
        ypos, xpos = (i - (2.5 * f1 - 0.5)) / f, (j - 2.0 * f1) / f
    zr = np.clip(np.floor(ypos).astype(int), 0, S - 2)
    zc = np.clip(np.floor(xpos).astype(int), 0, W - 2)
    st, ss = (ypos - zr)[:, None], (xpos - zc)[None, :]
    out = np.empty((2, n * S * f, fw))
    near = np.zeros((n * S * f, fw), bool)
    for k in range(n):
        sl = slice(k * S, (k + 1) * S)
        xyz = lonlat2xyz(lon[sl], lat[sl], R_GEO)
        za = np.deg2rad(satz[sl].astype("f8"))
        a, b = za[:-1, :-1], za[:-1, 1:]
        pa, pb = np.arcsin(R * np.sin(a) / (R + H)), np.arcsin(R * np.sin(b) / (R + H))
        ta, tb = a - pa, b - pb
        phi = (pa + pb) / 2
        zeta = np.arcsin((R + H) * np.sin(phi) / R)
        th = zeta - phi
        eq = np.abs(ta - tb) < 1e-5
        den = np.where(eq, ta + tb, ta - tb)
        with np.errstate(all="ignore"):
            cexp = np.where(den == 0, 0, 4 * ((ta + tb) / 2 - th) / den)
            d = ((R + H) / R * np.cos(phi) - np.cos(zeta)) * sw / (2 * H)
            e = np.cos(zeta) - np.sqrt(np.cos(zeta) ** 2 - d ** 2)
            cali = np.where(den == 0, 0, 4 * e * np.sin(zeta) / den)
        asc = ss + ss * (1 - ss) * cexp[zr][:, zc] + st * (1 - st) * cali[zr][:, zc]
        A, B = xyz[:, zr][:, :, zc], xyz[:, zr][:, :, zc + 1]
        D, C = xyz[:, zr + 1][:, :, zc], xyz[:, zr + 1][:, :, zc + 1]
        p = (1 - st) * ((1 - asc) * A + asc * B) + st * ((1 - asc) * D + asc * C)
        o = slice(k * S * f, (k + 1) * S * f)
        out[0, o], out[1, o] = xyz2lonlat(*p, R_GEO)
        near[o] = np.abs(np.abs(p[2]) / R_GEO - 0.8) < 1e-7
    return out[0], out[1], near


def modis_simple_oracle(lon, lat, fine):
    f = 1000 // fine
    W = lon.shape[1]
    n = lon.shape[0] // 10
    y, x = (np.arange(10 * f) + 0.5) / f - 0.5, np.arange(W * f) / f
    out = np.empty((2, n * 10 * f, W * f))
    near = np.zeros(out.shape[1:], bool)
    for k in range(n):
        sl = slice(k * 10, (k + 1) * 10)
        p = bilinear(np.moveaxis(lonlat2xyz(lon[sl], lat[sl], R_GEO), 0, -1), y, x)
        o = slice(k * 10 * f, (k + 1) * 10 * f)
        out[0, o], out[1, o] = xyz2lonlat(p[..., 0], p[..., 1], p[..., 2], R_GEO)
        near[o] = np.abs(np.abs(p[..., 2]) / R_GEO - 0.8) < 1e-7
    return out[0], out[1], near
