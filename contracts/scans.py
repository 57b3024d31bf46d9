"""Contracts of the MODIS entry points over array kinds: every scan alone, whatever the chunks and the container."""
import core
import daskmodel as dm
import modis
import simple_modis
import xrmodel
from core import add, cmp, eq, fresh, mul, sub
from contract import ANY, Contract
from exec import ListObj
from mem import View
from safety import PM, PS


class _Scans(Contract):
    level = "api"
    names = ("lon1", "lat1", "satz1")

    def geometry(self, cfg):
        """(tie rows per scan, tie columns, factor, fine columns)"""
        raise NotImplementedError

    def matches(self, c):
        return None

    def views(self, s, cfg, extent):
        """Arrays of `scans` whole scans."""
        self.csl, self.W, self.f, self.FW = self.geometry(s, cfg)
        self.rows = self.csl * self.f
        self.scans = s.int("scans", 1, 2**31 // (self.rows * 5416))
        s.st.pc.append(cmp("<", mul(mul(self.scans, self.rows), self.FW), 2**31))
        sh = [mul(self.csl, self.scans), self.W]
        return {k: s.array(k, sh, cfg.get("dtype", "FT"), kind="nd", contig=None) for k in self.names}

    def results(self, ex, val, st):
        return list(ex.items(val, st))

    def spec(self, c):
        c.returns(ANY)


class Stack(_Scans):
    """Row il of scan s of the result is row il of the result for that scan alone."""

    def setup(self, s, cfg):
        self.cfg = cfg
        r = self.views(s, cfg, None)
        self.s = s.int("s", 0, None)
        s.st.pc.append(cmp("<", self.s, self.scans))
        return r

    def run(self, ex, fv, args, st):
        arrays = [args[k] for k in self.names]

        def go(s):
            full = ex.call(fv, arrays, {}, s, None)
            lo = mul(self.csl, self.s)
            part = []
            for v in arrays:
                fr = ex.freeze(v, s)
                part.append(ex.fnarray(s, [self.csl, self.W], v.dtype, lambda e, s2, p, fr=fr: e.read(fr, [add(lo, p[0]), p[1]], s2, None, check=False), "one scan"))
            return tuple(self.results(ex, full, s)), tuple(self.results(ex, ex.call(fv, part, {}, s, None), s))
        return ex.outcomes(go, st)

    def check_return(self, ex, c, val, st, node):
        full, alone = val
        ex.oblige("shape", len(full) == 2 and len(alone) == 2, st, node, "two results")
        for k, (a, b) in enumerate(zip(full, alone)):
            for d, n in enumerate((mul(self.rows, self.scans), self.FW)):
                ex.oblige("shape", eq(a.shape[d], n), st, node, "extent %d of result %d" % (d, k))
            for d, n in enumerate((self.rows, self.FW)):
                ex.oblige("shape", eq(b.shape[d], n), st, node, "extent %d of result %d for one scan" % (d, k))
            s2 = st.copy()
            i, j = fresh("i"), fresh("j")
            s2.pc += [cmp("<=", 0, i), cmp("<", i, self.rows), cmp("<=", 0, j), cmp("<", j, self.FW)]
            x = ex.read(a, [add(mul(self.rows, self.s), i), j], s2, node, check=False)
            y = ex.read(b, [i, j], s2, node, check=False)
            ex.oblige("post", None, s2, node, "result %d of a scan is the result for that scan alone" % k, eqs=(x, y))


class Containers(_Scans):
    """dask and xarray arrays, of any chunks, give the same as numpy arrays, in the same kind of container."""

    def setup(self, s, cfg):
        self.cfg = cfg
        self.plain = self.views(s, cfg, None)
        self.dims = ("rows of this", "columns of this")
        r = {}
        for k, v in self.plain.items():
            x = v
            if cfg["kind"] != "xarray":
                # every array has chunks of its own
                if cfg.get("same") and k != self.names[0]:
                    ch = self.chunks
                else:
                    ch = self.chunks = [dm.chunk_seq(s.st, v.shape[0], True), dm.chunk_seq(s.st, v.shape[1], True)]
                x = dm.input_array(s.ex, s.st, v, ch)
            if cfg["kind"] != "dask":
                x = xrmodel.DataArray(x, self.dims)
            r[k] = x
        return r

    def run(self, ex, fv, args, st):
        def go(s):
            r = ex.call(fv, [args[k] for k in self.names], {}, s, None)
            return r, tuple(self.results(ex, ex.call(fv, [self.plain[k] for k in self.names], {}, s, None), s))
        return ex.outcomes(go, st)

    def check_return(self, ex, c, val, st, node):
        got, eager = val
        got = self.results(ex, got, st)
        ex.oblige("shape", len(got) == len(eager), st, node, "as many results as for numpy arrays")
        for k, (g, e) in enumerate(zip(got, eager)):
            what = "of result %d" % k
            if self.cfg["kind"] != "dask":
                ok = isinstance(g, xrmodel.DataArray)
                ex.oblige("type", ok, st, node, "a DataArray %s" % what)
                if not ok:
                    continue
                ex.oblige("post", g.dims == self.dims, st, node, "the dimension names %s are those of the input" % what)
                g = g.data
            if self.cfg["kind"] == "xarray":
                self.check_view(ex, st, node, g, e, what)
                continue
            ok = isinstance(g, dm.Array)
            ex.oblige("type", ok, st, node, "a lazy array %s" % what)
            if ok:
                self.check_blocks(ex, st, node, g, e, what)

    def check_view(self, ex, st, node, g, e, what):
        ok = isinstance(g, View) and g.ndim == 2
        ex.oblige("type", ok, st, node, "a two-dimensional array %s" % what)
        if not ok:
            return
        for d in range(2):
            ex.oblige("shape", eq(g.shape[d], e.shape[d]), st, node, "extent %d %s" % (d, what))
        ex.oblige("dtype", g.dtype == e.dtype, st, node, "dtype %s" % what)
        s2 = st.copy()
        at = self.index(s2, e.shape[0], e.shape[1])
        ex.oblige("post", None, s2, node, "elements %s" % what, eqs=(ex.read(g, at, s2, node, check=False), ex.read(e, at, s2, node, check=False)))

    def index(self, st, n, m):
        """An element of an array of n rows, given by its scan and the row within it."""
        t, il, j = fresh("t"), fresh("il"), fresh("j")
        i = add(mul(self.rows, t), il)
        st.pc += [cmp("<=", 0, t), cmp("<=", 0, il), cmp("<", il, self.rows), cmp("<", i, n), cmp("<=", 0, j), cmp("<", j, m)]
        return [i, j]

    def check_blocks(self, ex, st, node, g, e, what):
        ex.oblige("shape", len(g.shape) == 2, st, node, "two dimensions %s" % what)
        for d in range(2):
            ex.oblige("shape", eq(g.shape[d], e.shape[d]), st, node, "declared extent %d %s" % (d, what))
        ex.oblige("dtype", g.dtype == e.dtype, st, node, "declared dtype %s" % what)
        s2 = st.copy()
        pos = [dm.position(s2, ch) for ch in g.chunks]
        n_raise = len(ex.raises)
        b = g.block(ex, s2, tuple(pos))
        for x, exc in ex.raises[n_raise:]:
            ex.oblige("raises", core.bnot(core.band(*x.pc)), st, node, "computing a block raises %s" % exc.cls.name)
        del ex.raises[n_raise:]
        ok = isinstance(b, View) and b.ndim == 2
        ex.oblige("type", ok, s2, node, "blocks %s are arrays" % what)
        if not ok:
            return
        ex.oblige("dtype", b.dtype == g.dtype, s2, node, "dtype of the blocks %s" % what)
        for d in range(2):
            ex.oblige("shape", eq(b.shape[d], g.chunks[d].fn(pos[d])), s2, node, "extent %d of the blocks %s is the declared one" % (d, what))
        s3 = s2.copy()
        at = self.index(s3, b.shape[0], b.shape[1])
        if core.decide_false(s3.pc):
            return
        x = ex.read(b, at, s3, node, check=False)
        y = ex.read(e, [add(dm.start(g.chunks[d], pos[d]), at[d]) for d in range(2)], s3, node, check=False)
        ex.oblige("post", None, s3, node, "elements of the blocks %s" % what, eqs=(x, y))


class _Modis:
    mod = PM

    def __init__(self, coarse, fine):
        self.coarse, self.fine = coarse, fine
        self.qual = "modis_%dkm_to_%s" % (coarse // 1000, "%dm" % fine if fine < 1000 else "%dkm" % (fine // 1000))
        base = [{"width": w} for w in ((1354,) if coarse == 1000 else (270, 271))]
        self.configs = [dict(b, **k) for b in base for k in self.kinds]

    def geometry(self, s, cfg):
        g = modis.G({"coarse": self.coarse, "fine": self.fine, "width": cfg["width"]})
        return g.csl, g.W, g.f, g.fw


class _Simple:
    mod = PS
    names = ("lon1", "lat1")

    def __init__(self, fine):
        self.fine, self.qual = fine, "modis_1km_to_%dm" % fine
        self.configs = [dict(k) for k in self.kinds]

    def geometry(self, s, cfg):
        f = 1000 // self.fine
        w = s.int("width", 2, 2**31)
        return 10, w, f, mul(w, f)


class StackModis(_Modis, Stack):
    kinds = [{}]


class StackSimple(_Simple, Stack):
    kinds = [{}]


KINDS = [{"kind": "xarray"}, {"kind": "dask"}, {"kind": "dask", "same": True}, {"kind": "xarray of dask"}, {"kind": "xarray of dask", "same": True}]


class ContainersModis(_Modis, Containers):
    kinds = KINDS


class ContainersSimple(_Simple, Containers):
    kinds = KINDS


PAIRS = ((1000, 500), (1000, 250), (5000, 1000), (5000, 500), (5000, 250))
MODIS = [k(c, f) for k in (StackModis, ContainersModis) for c, f in PAIRS]
SIMPLE = [k(f) for k in (StackSimple, ContainersSimple) for f in (500, 250)]
MODIS_INTERNAL = modis.INTERNAL + [modis.Interpolate()]
SIMPLE_INTERNAL = simple_modis.INTERNAL + [simple_modis.Simple()]
