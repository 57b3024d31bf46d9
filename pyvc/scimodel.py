"""Assumed contracts of the scipy functions that the code calls."""
from fractions import Fraction

import z3

import core
from core import Z, add, band, cmp, fresh, ite, mul, sub, sym
from cyparse import Unsupported
from exec import Builtin, LibModule
from mem import View


def fl(x):
    """floor of a real"""
    if not sym(x):
        x = Fraction(x)
        return x.numerator // x.denominator
    return z3.ToInt(x) if x.sort() == core.RL else x


def clampi(x, lo, hi):
    return ite(cmp("<", x, lo), lo, ite(cmp(">", x, hi), hi, x))


def linear_cell(u, n):
    """(cell, fraction) of a position along an axis of n >= 2 nodes."""
    q = clampi(fl(u), 0, sub(n, 2))
    return q, sub(u, Z(q, True) if sym(q) else Fraction(q))


def map_coordinates(ex, st, args, kw, node):
    """order=1, mode='nearest': bilinear interpolation at the coordinates clamped to the array."""
    names = ["input", "coordinates", "output", "order", "mode", "cval", "prefilter"]
    a = dict(zip(names, args))
    a.update(kw)
    order, mode = a.get("order", 3), a.get("mode", "constant")
    x, co, out = a["input"], a["coordinates"], a.get("output")
    if not isinstance(x, View) or not isinstance(co, View) or x.ndim != 2 or co.ndim != 3:
        raise Unsupported("map_coordinates arguments")
    ex.oblige("shape", core.eq(co.shape[0], 2), st, node, "map_coordinates gets one coordinate per dimension")
    src, cov = ex.freeze(x, st), ex.freeze(co, st)
    known = order == 1 and mode == "nearest"
    ex.assumed.add("scipy.ndimage.map_coordinates(order=1, mode='nearest') is bilinear interpolation at the coordinates clamped to the array")

    def at(s2, *p):
        if not known:
            return fresh("unknown_map_coordinates", core.RL)
        qs, fs = [], []
        for d in range(2):
            n = x.shape[d]
            c = ex.read(cov, [d] + list(p), s2, node, check=False)
            hi = sub(n, 1)
            c = ite(cmp("<", c, Fraction(0)), Fraction(0), ite(cmp(">", c, Z(hi, True) if sym(hi) else Fraction(hi)), Z(hi, True) if sym(hi) else Fraction(hi), c))
            q, f = linear_cell(c, n)
            qs.append(q)
            fs.append(f)
        r = Fraction(0)
        for dy in (0, 1):
            for dx in (0, 1):
                w = mul(fs[0] if dy else sub(Fraction(1), fs[0]), fs[1] if dx else sub(Fraction(1), fs[1]))
                r = add(r, mul(w, ex.read(src, [add(qs[0], dy), add(qs[1], dx)], s2, node, check=False)))
        return core.let(r)
    for d in range(2):
        ex.oblige("pre", cmp(">=", x.shape[d], 2), st, node, "precondition of map_coordinates: at least two nodes")
    if isinstance(out, View):
        for d in range(2):
            ex.oblige("shape", core.eq(out.shape[d], co.shape[d + 1]), st, node, "the output of map_coordinates has the shape of the coordinates")
        ex.assign_view(out, at, st, node)
        return out
    if out is not None and not isinstance(out, (str,)) and type(out).__name__ != "DType":
        raise Unsupported("map_coordinates output")
    return ex.fnarray(st, co.shape[1:], getattr(out, "tag", out) or x.dtype, lambda e, s, p: at(s, *p), "map_coordinates")


def libs():
    return {"scipy.ndimage": LibModule("scipy.ndimage", {"map_coordinates": Builtin("map_coordinates", map_coordinates)})}
