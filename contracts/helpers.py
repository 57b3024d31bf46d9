"""Contracts of the instrument helpers (geotiepoints/__init__.py): sizes, tie point positions, every scan alone."""
from fractions import Fraction as F

import core
import splinemodel as sp
from contract import ANY, Contract
from core import Z, add, cmp, eq, fresh, mul, sub
from geo import R_GEO, forward, latitude, longitude, same_position
from mem import View
from splitting import GT

BIG = 2**31


class _Helper(Contract):
    mod = GT
    level = "api"
    scan, factor, width, fine = 0, 0, 0, 0      # tie rows and fine rows per scan, tie columns, fine columns
    configs = [{}, {"dtype": "f4"}]

    def __init__(self, qual, scan, rows, width, fine):
        self.qual, self.scan, self.rows, self.width, self.fine = qual, scan, rows, width, fine

    def matches(self, c):
        return None

    def setup(self, s, cfg):
        self.cfg = cfg
        self.n = s.int("scans", 1, BIG // 10000)
        self.s = s.int("s", 0, None)
        s.st.pc.append(cmp("<", self.s, self.n))
        self.data = [s.array(k, [mul(self.scan, self.n), self.width], cfg.get("dtype", "f8"), kind="nd", contig=None) for k in ("lons", "lats")]
        return dict(zip(("lons", "lats"), self.data))

    def spec(self, c):
        c.returns(ANY)

    def interval(self, ex, st, k):
        return (mul(self.scan, k), mul(self.scan, add(k, 1)))

    def set_hints(self, ex, **kw):
        ex.hints = dict(kw, interval=[self.interval])

    def run(self, ex, fv, args, st):
        self.set_hints(ex)

        def go(s):
            full = ex.call(fv, self.data, {}, s, None)
            lo = mul(self.scan, self.s)
            part = []
            for v in self.data:
                fr = ex.freeze(v, s)
                part.append(ex.fnarray(s, [self.scan, self.width], v.dtype, lambda e, s2, p, fr=fr: e.read(fr, [add(lo, p[0]), p[1]], s2, None, check=False), "one scan"))
            return tuple(ex.items(ex.unlist(full, s), s)), tuple(ex.items(ex.unlist(ex.call(fv, part, {}, s, None), s), s))
        return ex.outcomes(go, st)

    def value(self, ex, v, i, j, st, at, **hints):
        self.set_hints(ex, **hints)
        r = sp.expand(ex, st, ex.read(v, [i, j], st, at, check=False))
        self.set_hints(ex)
        return r

    def check_return(self, ex, c, val, st, node):
        full, alone = val
        ok = len(full) == 2 and all(isinstance(v, View) and v.ndim == 2 for v in full + alone)
        ex.oblige("type", ok, st, node, "longitudes and latitudes")
        if not ok:
            return
        for vs, n in ((full, self.n), (alone, 1)):
            for v in vs:
                ex.oblige("shape", eq(v.shape[0], mul(self.rows, n)), st, node, "%d fine rows per scan" % self.rows)
                ex.oblige("shape", eq(v.shape[1], self.fine), st, node, "%d fine columns" % self.fine)
        self.independent(ex, full, alone, st, node)
        self.ties(ex, c, full, st, node)

    def independent(self, ex, full, alone, st, node):
        for il in range(self.rows):
            s2 = st.copy()
            j = fresh("j")
            s2.pc += [cmp("<=", 0, j), cmp("<", j, self.fine)]
            cells = self.cells(il)
            for k, what in enumerate(("longitude", "latitude")):
                x = self.value(ex, full[k], add(mul(self.rows, self.s), il), j, s2, node, cell=[add(mul(self.filled, self.s), q) for q in cells])
                y = self.value(ex, alone[k], il, j, s2, node, cell=cells)
                ex.oblige("post", None, s2, node, "%s in row %d of a scan depends on that scan alone" % (what, il), eqs=(x, y))

    def position(self, c, st, row, col, k):
        lo, la = (c.reader(v) for v in self.data)
        return core.let(forward(lo(st, row, col), la(st, row, col), k, R_GEO), 0)


class Modis(_Helper):
    """A scan of tie rows at fine rows first, first + step, ...; tie columns at fine columns first_col + step k."""
    def __init__(self, qual, scan, rows, width, fine, first, step, first_col):
        super().__init__(qual, scan, rows, width, fine)
        self.first, self.step, self.first_col = F(first), step, first_col
        self.filled = scan + 2

    def cells(self, il):
        """rows of the filled scan: its first fine row, its tie rows, its last fine row"""
        pos = [F(0)] + [self.first + self.step * k for k in range(self.scan)] + [F(self.rows - 1)]
        return [q for q in range(len(pos) - 1) if pos[q] <= il <= pos[q + 1]]

    def ties(self, ex, c, full, st, node):
        """In the column of a tie point the positions follow the tie rows linearly, from the first to the last fine row."""
        for il in range(self.rows):
            s2 = st.copy()
            q = fresh("c")
            s2.pc += [cmp("<=", 0, q), cmp("<", q, self.width)]
            col = add(mul(self.step, q), self.first_col)
            k = min(max(int((il - self.first) // self.step), 0), self.scan - 2)
            t = (il - self.first - self.step * k) / self.step
            row = add(mul(self.scan, self.s), k)
            got = [self.value(ex, v, add(mul(self.rows, self.s), il), col, s2, node, cell=[add(mul(self.filled, self.s), x) for x in self.cells(il)], node=[q, add(q, 1)]) for v in full]
            if t in (0, 1):
                r = add(row, int(t))
                self.exactly(ex, c, got, r, q, s2, node, "row %d" % il)
                continue
            xyz = [add(mul(1 - t, self.position(c, s2, row, q, a)), mul(t, self.position(c, s2, add(row, 1), q, a))) for a in range(3)]
            ex.oblige("post", None, s2, node, "longitude in the column of a tie point, row %d" % il, eqs=(got[0], longitude(*xyz)))
            ex.oblige("post", None, s2, node, "latitude in the column of a tie point, row %d" % il, eqs=(got[1], latitude(*xyz, R_GEO, F(4, 5), True)))

    def exactly(self, ex, c, got, r, q, s2, node, what):
        lon, lat = (ex.read(ex.freeze(v, c.st), [r, q], s2, node, check=False) for v in self.data)
        got = [core.norm(core.unfold_all(Z(x))) for x in got]
        s2.pc += [cmp("<", F(-180), lon), cmp("<=", lon, F(180)), cmp("<=", F(-90), lat), cmp("<=", lat, F(90))]
        same_position(ex, lon, lat, got[0], got[1], R_GEO, s2, node, ("the longitude of the tie point, " + what, "the latitude of the tie point, " + what))


class Avhrr(Modis):
    """Tie columns 0, 4 + 20k, 2047; every row alone."""
    filled = 1

    def __init__(self, qual):
        _Helper.__init__(self, qual, 1, 1, 105, 2048)

    def cells(self, il):
        return []

    def ties(self, ex, c, full, st, node):
        for what, lo, hi, at in (("first edge", 0, 1, lambda q: 0), ("column 4 + 20 k", 1, 104, lambda q: sub(mul(20, q), 16)), ("last edge", 104, 105, lambda q: 2047)):
            s2 = st.copy()
            q = fresh("c") if hi - lo > 1 else lo
            if hi - lo > 1:
                s2.pc += [cmp("<=", lo, q), cmp("<", q, hi)]
            got = [self.value(ex, v, self.s, at(q), s2, node, node=[q]) for v in full]
            self.exactly(ex, c, got, self.s, q, s2, node, what)


INTERNAL = []
API = [Avhrr("metop20kmto1km"), Modis("modis5kmto1km", 2, 10, 271, 1354, 2, 5, 2),
       Modis("modis1kmto500m", 10, 20, 1354, 2708, F(1, 2), 2, 0), Modis("modis1kmto250m", 10, 40, 1354, 5416, F(3, 2), 4, 0)]
