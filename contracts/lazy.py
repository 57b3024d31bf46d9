"""Contracts of the lazy interpolation: what is computed is what the eager interpolation returns."""
import core
import daskmodel as dm
from core import I, Z, add, cmp, eq, fresh, sub
from exec import DictObj, LibObj, SymSeq
from geo import R_GEO, latitude, longitude
from grids import EXTRA, GEO, Geo, Multiple, Single, _Grid
from interp import IN, inrange, results
from mem import View


class _Lazy(_Grid):
    """Evaluation with chunks, computed, against the evaluation without."""
    def lazily(self, ex, st, o, args, cfg):
        call = dict(cfg.get("call", {}), chunks=args["_chunks"])
        return self.evaluate(ex, st, o, args, dict(cfg, call=call))

    def setup(self, s, cfg):
        r = super().setup(s, cfg)
        # any value that normalize_chunks accepts
        r["_chunks"] = s.int("chunks", 1, None)
        return r

    def check_lazy(self, ex, c, lazy, eager, st, node, what, ingredients=None, rel=None):
        ok = isinstance(lazy, dm.Array)
        ex.oblige("type", ok, st, node, "a dask array" + what)
        if not ok:
            return
        ex.oblige("shape", len(lazy.shape) == 2, st, node, "two dimensions" + what)
        for k in range(2):
            ex.oblige("shape", eq(lazy.shape[k], self.N[k]), st, node, "the declared extent %d follows the fine points%s" % (k, what))
        ex.oblige("dtype", lazy.dtype == eager.dtype, st, node, "the declared dtype is the computed one" + what)
        s2 = st.copy()
        pos = [inrange(s2, fresh("block"), ch.length) for ch in lazy.chunks]
        n_raise = len(ex.raises)
        b = lazy.block(ex, s2, tuple(pos))
        for x, e in ex.raises[n_raise:]:
            ex.oblige("raises", core.bnot(core.band(*x.pc)), st, node, "computing a block raises %s" % e.cls.name)
        del ex.raises[n_raise:]
        if not isinstance(b, View) or b.ndim != 2:
            ex.oblige("type", False, s2, node, "every block is a two-dimensional array" + what)
            return
        ex.oblige("dtype", b.dtype == lazy.dtype, s2, node, "the dtype of every block is the declared one" + what)
        for k in range(2):
            ex.oblige("shape", eq(b.shape[k], lazy.chunks[k].fn(pos[k])), s2, node, "extent %d of every block is the declared chunk size%s" % (k, what))
        at = []
        for k in range(2):
            at.append(inrange(s2, fresh("x"), lazy.chunks[k].fn(pos[k])))
        if core.decide_false(s2.pc):
            return
        want = ex.read(eager, [add(lazy.chunks[k].prefix(pos[k]), at[k]) for k in range(2)], s2, node, check=False)
        ex.oblige("post", None, s2, node, "every element of every block is the eager value" + what, eqs=(ex.read(b, at, s2, node, check=False), want))
        self.check_name(ex, c, lazy, st, node, what, ingredients)

    def check_name(self, ex, c, lazy, st, node, what, ingredients):
        """Arrays of different contents have different names: the name determines everything that the blocks depend on."""
        if ingredients is None or lazy.name is None:
            return
        for text, x in ingredients:
            ok = isinstance(lazy.name, dm.Token) and dm.holds(lazy.name.args, x)
            ex.oblige("post", True if ok else fresh("unknown_token", core.B), st, node, "the name of the lazy array depends on %s%s" % (text, what))

    def ingredients(self, ex, c, values, lazy):
        st = c.st
        r = [("tie point axis %d" % k, ex.freeze(p, st)) for k, p in enumerate(self.P)]
        if not c.cfg.get("to_shape"):
            r += [("fine axis %d" % k, ex.freeze(q, st)) for k, q in enumerate(self.Q)]
        r += [("the chunks of axis %d" % k, ch) for k, ch in enumerate(lazy.chunks if isinstance(lazy, dm.Array) else ())]
        if values is not None:
            r.append(("the values", ex.freeze(values, st)))
        if c.cfg.get("call"):
            r.append(("the call options", dict(c.cfg["call"])))
        return r


class LazySingle(_Lazy):
    mod, qual = IN, "AbstractSingleInterpolator.interpolate"
    configs = ([{"kind": "grid", "index": i, "data": d, "init": kw} for i in ("i8", "f8") for d in ("f4", "f8") for kw in ({}, EXTRA)] +
               [{"kind": "grid", "data": "i4"}, {"kind": "grid", "init": dict(EXTRA, method="nearest")}, {"kind": "grid", "call": {"method": "nearest"}},
                {"kind": "grid", "init": {"method": "cubic"}}, {"kind": "grid", "init": {"method": "nearest"}, "call": {"method": "linear"}},
                {"kind": "grid", "fine": "i8"}] +
               [{"kind": "spline", "index": i, "data": d, "init": kw} for i in ("i8", "f8") for d in ("f4", "f8") for kw in ({}, {"kx": 1, "ky": 1}, {"kx": 1, "ky": 3})] + [{"kind": "spline", "data": "i4"}])

    def run(self, ex, fv, args, st):
        cfg = self.cfg

        def go(s):
            o = self.single(ex, s, args, cfg, args["values0"])
            lazy = self.lazily(ex, s, o, args, cfg)
            return lazy, self.evaluate(ex, s, o, args, cfg)
        return ex.outcomes(go, st)

    def check_return(self, ex, c, val, st, node):
        lazy, eager = val
        self.check_lazy(ex, c, lazy, eager, st, node, "", self.ingredients(ex, c, self.values[0], lazy))


KW = [{"kind": "grid"}, {"kind": "grid", "init": EXTRA, "data": "f4"}, {"kind": "grid", "init": dict(EXTRA, method="nearest")}, {"kind": "grid", "init": EXTRA, "call": {"method": "nearest"}},
      {"kind": "grid", "init": EXTRA, "to_shape": True}, {"kind": "spline"}, {"kind": "spline", "init": {"kx": 1, "ky": 1}, "data": "f4"}, {"kind": "spline", "to_shape": True}]


class LazyMultiple(_Lazy, Multiple):
    mod, qual = IN, "AbstractMultipleInterpolator.interpolate"
    configs = [dict(k, count=n) for n, k in zip([2, 3, 1, 2] * 4, KW)]

    def run(self, ex, fv, args, st):
        cfg = self.cfg

        def go(s):
            o = self.build(ex, s, *self.classes(cfg), [args["tie_points"]] + self.args_of(args), cfg.get("init", {}))
            lazy = tuple(results(ex, self.lazily(ex, s, o, args, cfg), s))
            return lazy, tuple(results(ex, self.evaluate(ex, s, o, args, cfg), s))
        return ex.outcomes(go, st)

    def check_return(self, ex, c, val, st, node):
        lazy, eager = val
        ex.oblige("shape", len(lazy) == len(eager), st, node, "one result per data set")
        for k, (a, b) in enumerate(zip(lazy, eager)):
            self.check_lazy(ex, c, a, b, st, node, " (result %d)" % k, self.ingredients(ex, c, self.part(k), a))

    def part(self, k):
        return self.values[k]


class LazyGeo(LazyMultiple, Geo):
    mod, qual = GEO, "GeoGridInterpolator"
    configs = [dict(k, count=2) for k in KW]

    def part(self, k):
        return None

    def function(self, ex, mod, qual):
        return Geo.function(self, ex, mod, qual)

    def classes(self, cfg):
        return Geo.classes(self, cfg)


INTERNAL = []
API = [LazySingle(), LazyMultiple(), LazyGeo()]
