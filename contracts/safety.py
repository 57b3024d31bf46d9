"""Contracts of the public MODIS and multilinear functions for arrays of any extents (memory safety, shapes, dtypes, rejection)."""
import core
import multilinear
from core import Z, band, bnot, bor, cmp, eq, mul, sym
from contract import ANY, Contract, Pred
from mem import View

PM = "geotiepoints.modisinterpolator"
PS = "geotiepoints.simple_modis_interpolator"


class Public(Contract):
    """modis_* with zenith angles, arrays of any shape: rejected, or a result of the documented shape and dtype, every element written."""
    mod = PM
    level = "api"
    names = ("lon1", "lat1", "satz1")

    def __init__(self, coarse, fine):
        self.coarse, self.fine = coarse, fine
        self.qual = "modis_%dkm_to_%s" % (coarse // 1000, "%dm" % fine if fine < 1000 else "%dkm" % (fine // 1000))
        widths = (1354, None) if coarse == 1000 else (270, 271, None)
        self.configs = [{"width": w or "other"} for w in widths]
        self.handled = [w for w in widths if w]

    def setup(self, s, cfg):
        r = {}
        for k in self.names:
            w = cfg["width"]
            if w == "other" or k != "lon1":
                w = s.int("width_" + k, 0, 2**31 - 1)
            if cfg["width"] == "other" and k == "lon1":
                s.st.pc += [cmp("!=", w, x) for x in self.handled]
            h = s.int("height_" + k, 0, 2**31 - 1)
            s.st.pc.append(cmp("<", mul(h, 1354 * 16 * 4), 2**31))
            r[k] = s.array(k, [h, w], "FT", kind="nd", contig=None)
        return r

    def spec(self, c):
        first = c.a[self.names[0]]
        rows = {1000: 10, 5000: 2}[self.coarse]
        if c.cfg["width"] == "other":
            c.raises(True, "Exception")
            c.returns(ANY)
            return
        bad = bor(*[cmp("!=", c.a[k].shape[d], first.shape[d]) for k in self.names[1:] for d in range(2)])
        c.raises(bor(bad, cmp("!=", Z(first.shape[0]) % rows, 0)), "ValueError")
        f = self.coarse // self.fine
        c.returns(tuple(c.array([mul(first.shape[0], f), 1354 * (1000 // self.fine)], "FT", lambda st, i, j: core.fresh("any", core.RL)) for _ in range(2)))


PUBLIC = [Public(1000, 500), Public(1000, 250), Public(5000, 1000), Public(5000, 500), Public(5000, 250)]


class PublicSimple(Contract):
    """modis_* without angles, arrays of any shape."""
    mod = PS
    level = "api"
    coarse = 1000

    def __init__(self, fine):
        self.fine, self.qual = fine, "modis_1km_to_%dm" % fine

    def setup(self, s, cfg):
        f, r = 1000 // self.fine, {}
        for k in ("lon1", "lat1"):
            h, w = s.int("height_" + k, 0, 2**31 - 1), s.int("width_" + k, 0, 2**31 - 1)
            s.st.pc.append(cmp("<", mul(mul(h, f), mul(w, f)), 2**31))
            s.st.pc.append(cmp("<", mul(40, mul(w, f)), 2**31))
            s.st.pc.append(cmp("<", mul(h, f), 2**31))
            r[k] = s.array(k, [h, w], "FT", kind="nd", contig=None)
        return r

    def spec(self, c):
        lo, la = c.a.lon1.shape, c.a.lat1.shape
        f = 1000 // self.fine
        c.raises(bor(cmp("!=", lo[0], la[0]), cmp("!=", lo[1], la[1]), cmp("<", lo[1], 2), cmp("!=", Z(lo[0]) % 10, 0)), "ValueError")
        c.returns(tuple(c.array([mul(lo[0], f), mul(lo[1], f)], "FT", lambda st, i, j: core.fresh("any", core.RL)) for _ in range(2)))


class SafeKernel(multilinear.Kernel):
    """A multilinear kernel fills its output, whatever the values, the points and the box."""

    def spec(self, c):
        d, a = self.d, c.a
        for v, sh in ((a.smin, [d]), (a.smax, [d]), (a.orders, [d]), (a.s, [d, a.n_s]), (a.output, [a.n_s])):
            for k, n in enumerate(sh):
                c.require(eq(v.shape[k], n), "array extents")
        orders = c.reader(a.orders)
        for k in range(d):
            c.require(cmp(">=", orders(c.st, k), 2), "at least two nodes in dimension %d" % k)
        c.require(eq(multilinear.product([orders(c.st, k) for k in range(d)]), a.V.shape[0]), "one value per node")
        c.require(cmp("<", a.V.shape[0], 2**31), "the grid has less than 2**31 nodes")
        c.assign(a.output, lambda st, i: core.fresh("any", core.RL))


class SafeDispatch(Contract):
    """multilinear_interpolation for arrays of any extents."""
    mod, qual = multilinear.MC, "multilinear_interpolation"
    level = "api"
    configs = [{"d": d, "dtype": t} for d in (0, 1, 2, 3, 4, 5, "more") for t in ("f4", "f8")]

    def setup(self, s, cfg):
        d, t = cfg["d"], cfg["dtype"]
        if d == "more":
            d = s.int("d", 6, 2**31 - 1)
        n = [s.int(k, 0, 2**31 - 1) for k in ("n_smin", "n_smax", "n_orders", "n_v", "n_values", "n_s")]
        return {"smin": s.array("smin", [n[0]], t, contig=False), "smax": s.array("smax", [n[1]], t, contig=False), "orders": s.array("orders", [n[2]], "long", contig=False),
                "values": s.array("values", n[3:5], t), "s": s.array("s", [d, n[5]], t)}

    def spec(self, c):
        d, a = c.cfg["d"], c.a
        if d in (0, "more"):
            c.raises(True, "Exception")
            c.returns(ANY)
            return
        orders = c.reader(a.orders)
        bad = bor(*[cmp("!=", v.shape[0], d) for v in (a.smin, a.smax, a.orders)])
        few = bor(*[cmp("<", orders(c.st, k), 2) for k in range(d)])
        wrong = cmp("!=", multilinear.product([orders(c.st, k) for k in range(d)]), a["values"].shape[1])
        c.raises(bor(bad, few, wrong), "ValueError")
        c.returns(c.array([a["values"].shape[0], a.s.shape[1]], c.cfg["dtype"], lambda st, v, i: core.fresh("any", core.RL)))


SIMPLE = [PublicSimple(500), PublicSimple(250)]
KERNELS = [multilinear.CellIndex()] + [SafeKernel(d) for d in range(1, 6)]
DISPATCH = [SafeDispatch()]
