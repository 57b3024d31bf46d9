"""Contracts of the basic satellite interpolator (basic_interpolator.py)."""
from fractions import Fraction as F

import core
import splinemodel as sp
from contract import ANY, Contract
from core import add, cmp, div, eq, fresh, mul, sub
from exec import SymSeq
from interp import BIG, axis, inrange
from mem import View

BASIC = "geotiepoints.basic_interpolator"


class Basic(Contract):
    """BasicSatelliteInterpolator(cols, rows, latitudes, longitudes).interpolate(): bilinear in every tie cell."""
    mod, qual = BASIC, "BasicSatelliteInterpolator.interpolate"
    level = "api"
    configs = [{"data": d, "index": i} for d in ("f8", "f4", "i8") for i in ("i8", "i4")] + [{"data": "f8", "index": "i8", "lists": True}]

    def setup(self, s, cfg):
        self.cfg = cfg
        n, m = s.int("ties_along", 2, BIG), s.int("ties_across", 2, BIG)
        self.R, self.C = axis(s, "tie_rows", n, cfg["index"]), axis(s, "tie_cols", m, cfg["index"])
        for v in (self.R, self.C):
            s.st.pc.append(eq(s.ex.read(v, [0], s.st, None, check=False), 0))
            # 0 <= element (the first one is 0 and they increase)
            core._facts_for[v.fn.name()] = lambda x: [core.z3.Implies(x.arg(0) >= 0, x >= 0), x < BIG]
        self.data = [s.array(k, [n, m], cfg["data"], kind="nd", contig=None) for k in ("latitudes", "longitudes")]
        r, c = self.R, self.C
        if cfg.get("lists"):
            ex, st = s.ex, s.st
            fr = [ex.freeze(v, st) for v in (r, c)]
            r, c = [SymSeq(v.shape[0], lambda k, v=v: ex.read(v, [k], st, None, check=False), "list") for v in fr]
        return {"cols": c, "rows": r, "lat_data": self.data[0], "lon_data": self.data[1]}

    def spec(self, c):
        c.returns(ANY)

    def make(self, ex, args, s):
        return ex.call(ex.resolve_global(BASIC, "BasicSatelliteInterpolator", s), [args[k] for k in ("cols", "rows", "lat_data", "lon_data")], {}, s, None)

    def run(self, ex, fv, args, st):
        def go(s):
            return ex.call(ex.getattr(self.make(ex, args, s), "interpolate", s, None), [], {}, s, None)
        return ex.outcomes(go, st)

    def check_return(self, ex, c, val, st, node):
        its = [ex.to_array(v, st) for v in ex.items(ex.unlist(val, st), st)]
        ok = len(its) == 2 and all(isinstance(v, View) and v.ndim == 2 for v in its)
        ex.oblige("type", ok, st, node, "two two-dimensional arrays")
        if not ok:
            return
        rd = [c.reader(v) for v in (self.R, self.C)]
        n = [self.R.shape[0], self.C.shape[0]]
        for k, (v, d, what) in enumerate(zip(its, self.data, ("latitude", "longitude"))):
            for a in range(2):
                ex.oblige("shape", eq(v.shape[a], add(rd[a](st, sub(n[a], 1)), 1)), st, node, "one %s per index up to the last tie %s (%s)" % ((("row",) * 2, ("column",) * 2)[a] + (what,)))
            self.at_ties(ex, c, v, d, rd, n, st, node, what)
            self.in_cell(ex, c, v, d, rd, n, st, node, what)

    def at_ties(self, ex, c, v, d, rd, n, st, node, what):
        s2 = st.copy()
        r, q = inrange(s2, fresh("r"), n[0]), inrange(s2, fresh("c"), n[1])
        ex.hints = {"node": [r, q]}
        got = sp.expand(ex, s2, ex.read(v, [rd[0](s2, r), rd[1](s2, q)], s2, node, check=False))
        ex.hints = {}
        ex.oblige("post", None, s2, node, "the tie value at its row and column (%s)" % what, eqs=(got, ex.read(d, [r, q], s2, node, check=False)))

    def in_cell(self, ex, c, v, d, rd, n, st, node, what):
        """Every position up to the last tie row and column lies in a cell; the value is bilinear there."""
        s2 = st.copy()
        i, j = inrange(s2, fresh("i"), v.shape[0]), inrange(s2, fresh("j"), v.shape[1])
        r, q = inrange(s2, fresh("r"), sub(n[0], 1)), inrange(s2, fresh("c"), sub(n[1], 1))
        w = []
        for f, x, k in ((rd[0], i, r), (rd[1], j, q)):
            a, b = f(s2, k), f(s2, add(k, 1))
            s2.pc += [cmp("<=", a, x), cmp("<=", x, b)]
            w.append(div(sub(sp.real(x), sp.real(a)), sub(sp.real(b), sp.real(a))))
        ex.hints = {"cell": [r, q]}
        got = sp.expand(ex, s2, ex.read(v, [i, j], s2, node, check=False))
        ex.hints = {}
        want, val = F(0), c.reader(d)
        for x in (0, 1):
            for y in (0, 1):
                want = add(want, mul(mul(w[0] if x else sub(F(1), w[0]), w[1] if y else sub(F(1), w[1])), sp.real(val(s2, add(r, x), add(q, y)))))
        ex.oblige("post", None, s2, node, "bilinear between the four tie points around (%s)" % what, eqs=(got, want))


INTERNAL = []
API = [Basic()]
