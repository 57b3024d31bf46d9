"""Contracts for C16: no public call writes into what it was given, and asking again gives the same."""
import core
import geo
import grids
import interp
import lazy
import multilinear
import safety
import scans
import vii
from contract import ANY, Contract
from core import cmp, eq, fresh
from mem import View
from multilinear import MP, product


def same_again(ex, a, b, st, node, text):
    """Two results have the same contents (where they are arrays of numbers)."""
    if isinstance(a, View) and isinstance(b, View):
        ok = a.ndim == b.ndim
        ex.oblige("frame", ok, st, node, text + ": dimensions")
        if not ok:
            return
        s2 = st.copy()
        p = []
        for m, n in zip(a.shape, b.shape):
            ex.oblige("frame", eq(m, n), st, node, text + ": extents")
            k = fresh("p")
            s2.pc += [cmp("<=", 0, k), cmp("<", k, m)]
            p.append(k)
        if core.decide_false(s2.pc):
            return
        x, y = (ex.read(v, p, s2, node, check=False) for v in (a, b))
        ex.oblige("frame", None, s2, node, text, eqs=(x, y))
        return
    if type(a) is not type(b):
        ex.oblige("frame", False, st, node, text + ": kind of result")
        return
    try:
        xs, ys = (list(ex.items(ex.unlist(v, st), st)) for v in (a, b))
    except core_errors():
        return
    ex.oblige("frame", len(xs) == len(ys), st, node, text + ": number of results")
    for x, y in zip(xs, ys):
        same_again(ex, x, y, st, node, text)


def core_errors():
    from cyparse import Unsupported
    return Unsupported


class _Twice:
    """Mixed into a contract whose run is `make` the object and call it: the second call gives what the first one did."""

    def run(self, ex, fv, args, st):
        def go(s):
            call = self.prepared(ex, fv, args, s)
            first = call(s)
            return first, call(s)
        return ex.outcomes(go, st)

    def check_frame(self, ex, c, val, st, node):
        same_again(ex, val[0], val[1], st, node, "a second call gives the same")


class Interp(_Twice, interp.Values):
    """Interpolator: construction and two evaluations."""
    configs = interp.Values.configs

    def prepared(self, ex, fv, args, s):
        o = self.make(ex, args, s)
        return lambda s2: ex.call(ex.getattr(o, "interpolate", s2, None), [], {}, s2, None)


class GeoInterp(_Twice, interp.GeoValues):
    def prepared(self, ex, fv, args, s):
        o = self.make(ex, args, s)
        return lambda s2: ex.call(ex.getattr(o, "interpolate", s2, None), [], {}, s2, None)


class SingleTwice(_Twice, grids.Single):
    def prepared(self, ex, fv, args, s):
        o = self.single(ex, s, args, self.cfg, args["values0"])
        return lambda s2: self.evaluate(ex, s2, o, args, self.cfg)


class MultipleTwice(_Twice, grids.Multiple):
    def prepared(self, ex, fv, args, s):
        o = self.build(ex, s, *self.classes(self.cfg), [args["tie_points"]] + self.args_of(args), self.cfg.get("init", {}))
        return lambda s2: self.evaluate(ex, s2, o, args, self.cfg)


class GeoTwice(_Twice, grids.Geo):
    prepared = MultipleTwice.prepared


class Multilinear(Contract):
    """Every call on a MultilinearInterpolator built from arrays."""
    mod, qual = MP, "MultilinearInterpolator.__init__"
    level = "api"
    configs = [{"d": d, "dtype": t, "orders": o} for d in range(1, 6) for t, o in (("f8", "long"), ("f4", "i4"))]

    def setup(self, s, cfg):
        d, t = cfg["d"], cfg["dtype"]
        self.cfg = cfg
        r = {"smin": s.array("smin", [d], t, kind="nd", contig=None), "smax": s.array("smax", [d], t, kind="nd", contig=None),
             "orders": s.array("orders", [d], cfg["orders"], kind="nd", contig=None)}
        n = [s.ex.read(r["orders"], [k], s.st, None, check=False) for k in range(d)]
        for k, x in enumerate(n):
            s.st.pc += [cmp(">=", x, 2), cmp("<", x, 2**31)]
            s.st.pc.append(cmp("<", *(s.ex.read(r[a], [k], s.st, None, check=False) for a in ("smin", "smax"))))
        s.st.pc.append(cmp("<", product(n), 2**31))
        r["_values"] = s.array("values", [s.int("n_v", 0, 2**31 - 1), product(n)], t, kind="nd", contig=None)
        r["_points"] = s.array("points", [d, s.int("n_s", 0, 2**31 - 1)], t, kind="nd", contig=None)
        return r

    def spec(self, c):
        c.returns(ANY)

    def run(self, ex, fv, args, st):
        def go(s):
            cls = ex.resolve_global(MP, "MultilinearInterpolator", s)
            o = ex.call(cls, [args["smin"], args["smax"], args["orders"]], {"values": args["_values"]} if self.cfg["dtype"] == "f8" else {}, s, None)
            if self.cfg["dtype"] == "f4":
                ex.call(ex.getattr(o, "set_values", s, None), [args["_values"]], {}, s, None)
            r = []
            for _ in range(2):
                r.append((ex.getattr(o, "grid", s, None), ex.call(ex.getattr(o, "interpolate", s, None), [args["_points"]], {}, s, None), ex.call(o, [args["_points"]], {}, s, None)))
            return r[0], r[1]
        return ex.outcomes(go, st)

    def check_frame(self, ex, c, val, st, node):
        for a, b in zip(*val):
            same_again(ex, a, b, st, node, "a second call gives the same")


MODIS = safety.PUBLIC + [c for c in scans.MODIS if isinstance(c, scans.Containers)]
SIMPLE = safety.SIMPLE + [c for c in scans.SIMPLE if isinstance(c, scans.Containers)]
MULTILINEAR = [Multilinear()]
VII = vii.API + vii.GEO
CONVERSIONS = geo.FUNCTIONS
CLASSES = [Interp(), GeoInterp()]
GRIDS = [SingleTwice(), MultipleTwice(), GeoTwice()]
LAZY = lazy.API
