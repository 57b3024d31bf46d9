"""Contracts of the splitting over processes (geotiepoints/__init__.py)."""
import z3

import core
from core import I, RL, Z, add, band, cmp, eq, fresh, mul, sub, sym, uf
from contract import Contract, Pred
from mem import idiv
from npmodel import as_seq

GT = "geotiepoints"


class SceneSplits(Contract):
    """The split points: the multiples of the piece length inside the swath, for a piece of (scans // CPUs, at least one) whole scans."""
    mod, qual = GT, "get_scene_splits"
    level = "api"
    configs = [{"length": 10}, {"length": "any"}]

    def matches(self, c):
        return None

    def setup(self, s, cfg):
        self.length = 10 if cfg["length"] == 10 else s.int("nlines_scan", 1, 2**31)
        self.scans, self.cpus = s.int("scans", 1, 2**31), s.int("n_cpus", 1, 2**31)
        return {"nlines_swath": mul(self.scans, self.length), "nlines_scan": self.length, "n_cpus": self.cpus}

    def spec(self, c):
        per = idiv(self.scans, self.cpus, c.st.pc)
        per = core.ite(cmp("<", per, 1), 1, per)
        length, scans = self.length, self.scans

        def check(ex, c, got, st, node, name):
            n, f = as_seq(ex, got, st)
            piece = fresh("per")         # scans per piece, as the statement defines it
            s1 = st.copy()
            s1.pc.append(eq(piece, per))
            s1.pc += [cmp("<=", 1, piece), cmp("<=", piece, scans)]
            ex.oblige("lemma", band(cmp("<=", 1, per), cmp("<=", per, scans)), st, node, "a piece has between one and all scans")
            k = fresh("k")
            s2 = s1.copy()
            s2.pc += [cmp("<=", 0, k), cmp("<", k, n)]
            if not core.decide_false(s2.pc):
                ex.oblige("post", eq(f(k), mul(mul(add(k, 1), per), length)), s2, node, "split point k is k + 1 pieces of whole scans from the start")
                # in units of scans: inside the swath, and the last piece is not longer than the others
                ex.oblige("post", cmp("<", f(k), mul(scans, length)), s2, node, "split points lie inside the swath")
                ex.oblige("post", cmp(">", f(k), 0), s2, node, "split points lie inside the swath")
            # the piece after the last split point is not longer than the others
            m = core.ite(cmp(">", n, 0), n, 0)
            ex.oblige("post", cmp(">=", mul(mul(add(m, 1), per), length), mul(scans, length)), s1, node, "the last piece is not longer than the others")
        c.returns(Pred(check))


_R, _C = uf("scan_row", I, I, I), uf("scan_col", I, I, I)
_H = [uf("scan_result%d" % k, I, I, RL, RL, RL) for k in range(2)]


class OneProcess(Contract):
    """A MODIS helper in one process treats each scan alone: element (i, j) of a scan is a function of that scan's tie points.

    The function sees one tie point of the scan at an arbitrary position, which stands for all of them."""
    mod = GT

    def __init__(self, qual, f):
        self.qual, self.f = qual, f

    def matches(self, c):
        cores = c.a.cores
        return {} if not sym(cores) and cores <= 1 else None

    def results(self, c, lons, lats):
        f = self.f
        lo, la = c.reader(lons), c.reader(lats)
        w = lons.shape[1]

        def at(k):
            def fn(st, i, j):
                scan = idiv(i, 10 * f, st.pc)
                il = sub(i, mul(scan, 10 * f))
                il = core.norm(Z(il))
                r, q = core.let(_R(Z(il), Z(j))) if False else _R(Z(il), Z(j)), _C(Z(il), Z(j))
                row, col = add(mul(scan, 10), Z(r) % 10), Z(q) % Z(w)
                return _H[k](Z(il), Z(j), lo(st, row, col), la(st, row, col))
            return fn
        return tuple(c.array([mul(lons.shape[0], f), mul(w, f)], "f8", at(k)) for k in range(2))

    def spec(self, c):
        lo, la = list(c.a.values())[:2]
        c.require(eq(Z(lo.shape[0]) % 10, 0) if sym(lo.shape[0]) else lo.shape[0] % 10 == 0, "whole scans")
        for d in range(2):
            c.require(eq(lo.shape[d], la.shape[d]), "same shape")
        c.returns(self.results(c, lo, la))


class ManyProcesses(Contract):
    """A MODIS helper on several processes returns what it returns on one."""
    mod = GT
    level = "api"

    def __init__(self, one):
        self.one, self.qual = one, one.qual
        self.keep = True

    def matches(self, c):
        return None

    def setup(self, s, cfg):
        n, w = s.int("scans", 1, 2**31), s.int("width", 1, 2**31)
        return {"lons1km": s.array("lons", [mul(10, n), w], "f8", kind="nd", contig=None), "lats1km": s.array("lats", [mul(10, n), w], "f8", kind="nd", contig=None),
                "cores": s.int("cores", 2, 2**31)}

    def spec(self, c):
        c.returns(self.one.results(c, c.a.lons1km, c.a.lats1km))


ONE = [OneProcess("modis1kmto500m", 2), OneProcess("modis1kmto250m", 4)]
INTERNAL = []
API = [SceneSplits()] + [ManyProcesses(o) for o in ONE]
