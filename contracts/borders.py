"""Contracts of the border filling (interpolator.py): tie rows and columns continued linearly, inside every chunk alone."""
import z3

import core
from contract import ANY, Contract
from core import B, I, RL, Z, add, band, cmp, div, eq, fresh, ite, mul, sub, uf
from interp import BIG, IN, axis
from mem import View, idiv
from npmodel import register_sum


def one(c):
    """1 where the condition holds, else 0"""
    return ite(c, 1, 0)


def real(x):
    return Z(x, True)


class Fill(Contract):
    """Interpolator(data, (R, C), (HR, HC), chunk_size).fill_borders(*directions)

    The fine rows are N chunks of S rows, strictly increasing; the tie rows of chunk k are R[A(k)], ..., R[A(k + 1) - 1]: at least two
    of them, from the first fine row of the chunk up to the first one of the next chunk (the last chunk: its last fine row)."""
    mod, qual = IN, "Interpolator.fill_borders"
    level = "api"
    configs = ([{"dims": d, "chunked": c} for d in (("x",), ("y",), ("y", "x"), ("x", "y")) for c in (False, True)]
               + [{"dims": ("y", "x"), "chunked": c, "index": "f8", "count": 1} for c in (False, True)]
               + [{"dims": ("y", "x"), "chunked": c, "data": dt, "count": 1} for c in (False, True) for dt in ("f4", "i8")]
               + [{"dims": d, "chunked": c, "count": 3} for d in (("x",), ("y",)) for c in (False, True)])

    def matches(self, c):
        return None

    def setup(self, s, cfg):
        self.cfg, self.count = cfg, cfg.get("count", 2)
        idt, dt = cfg.get("index", "i8"), cfg.get("data", "f8")
        sort = I if idt[0] == "i" else RL
        n, m = s.int("ties_along", 2, BIG), s.int("ties_across", 2, BIG)
        self.n, self.m = n, m
        self.S = S = s.int("chunk_rows", 1, BIG)
        self.N = N = s.int("chunks", 1, BIG) if cfg["chunked"] else 1
        self.R, self.C = axis(s, "tie_rows", n, idt), axis(s, "tie_cols", m, idt)
        M = s.int("fine_across", 1, BIG)
        self.HC = axis(s, "fine_cols", M, idt)
        u = next(core._fresh)
        self.fine, self.first, self.chunk = uf("fine_row%d" % u, I, I, sort), uf("first_tie%d" % u, I, I), uf("chunk_of%d" % u, I, I)
        fine, A, ch = self.fine, self.first, self.chunk

        def lexicographic(x, y):
            (a, b), (c, d) = x.children(), y.children()
            return [z3.Implies(z3.Or(a < c, z3.And(a == c, b < d)), x < y), z3.Implies(z3.Or(c < a, z3.And(a == c, d < b)), y < x)]
        core.PAIRS.append((fine.name(), fine.name(), lexicographic))
        core.PAIRS.append((A.name(), A.name(), lambda x, y: [z3.Implies(z3.And(0 <= a.arg(0), a.arg(0) < b.arg(0), b.arg(0) <= Z(N)), a + 2 <= b) for a, b in ((x, y), (y, x))]))
        core._facts_for[A.name()] = lambda x: [z3.Implies(x.arg(0) == 0, x == 0), z3.Implies(x.arg(0) == Z(N), x == n), z3.Implies(z3.And(0 <= x.arg(0), x.arg(0) <= Z(N)), z3.And(0 <= x, x <= n))]

        def of_tie(x):
            t = x.arg(0)
            c = ch(t)
            below = z3.If(c == Z(N) - 1, x <= fine(c, Z(S) - 1), x < fine(c + 1, z3.IntVal(0)))
            return [z3.Implies(z3.And(0 <= t, t < n), z3.And(0 <= c, c < Z(N), A(c) <= t, t < A(c + 1), fine(c, z3.IntVal(0)) <= x, below))]
        core._facts_for[self.R.fn.name()] = of_tie
        core.CONSTRAINED.update([fine.name(), A.name(), ch.name(), self.R.fn.name(), self.C.fn.name(), self.HC.fn.name()])
        ex, st = s.ex, s.st
        st.pc.append(cmp("<", mul(S, N), BIG))
        self.HR = ex.fnarray(st, [mul(S, N)], idt, lambda e, s2, p: self.fine_at(p[0], s2), "fine_rows")
        rc, rh = self.reader(ex, self.C), self.reader(ex, self.HC)
        st.pc += [cmp("<=", rh(st, 0), rc(st, 0)), cmp("<=", rc(st, sub(m, 1)), rh(st, sub(M, 1)))]
        self.data = [s.array("data%d" % k, [n, m], dt, kind="nd", contig=None) for k in range(self.count)]
        d = self.data[0] if self.count == 1 else ex.mklist(list(self.data), st)
        r = {"data": d, "tiepoint_grid": (self.R, self.C), "final_grid": (self.HR, self.HC)}
        if cfg["chunked"]:
            r["chunk_size"] = S
        return r

    def fine_at(self, p, st):
        k = idiv(p, self.S, st.pc)
        return self.fine(Z(k), Z(core.norm(Z(sub(p, mul(self.S, k))))))

    def reader(self, ex, v):
        return lambda st, *idx: ex.read(v, list(idx), st, None, check=False)

    # -- the specification
    def row(self, k, r):
        return self.fine(Z(k), Z(r))

    def piece(self, rR, st, k):
        """(tie rows, an extra row before, an extra row after) of chunk k"""
        a, b = self.first(Z(k)), self.first(Z(add(k, 1)))
        return sub(b, a), cmp(">", rR(st, a), self.row(k, 0)), cmp("<", rR(st, sub(b, 1)), self.row(k, sub(self.S, 1)))

    def size(self, rR, st):
        def f(k):
            m, before, after = self.piece(rR, st, k)
            return add(add(m, one(before)), one(after))
        return f

    def spec(self, c):
        c.returns(ANY)

    def run(self, ex, fv, args, st):
        self.rR = self.reader(ex, self.R)
        P = uf("rows_before%d" % next(core._fresh), I, I)
        self.P = P
        ex.sums = []
        register_sum(ex, self.N, self.size(self.rR, st), P)
        self.hints = {"interval": [lambda e, s, k: (self.first(Z(k)), self.first(Z(add(k, 1))))]}
        ex.hints, ex.merge_arrays = dict(self.hints), True
        kw = {k: v for k, v in args.items() if k == "chunk_size"}
        pos = [args[k] for k in ("data", "tiepoint_grid", "final_grid")]

        def go(s):
            o = ex.call(ex.resolve_global(IN, "Interpolator", s), pos, kw, s, None)
            ex.call(ex.getattr(o, "fill_borders", s, None), list(self.cfg["dims"]), {}, s, None)
            return o
        return ex.outcomes(go, st)

    def check_return(self, ex, c, o, st, node):
        get = lambda name: ex.unlist(ex.getattr(o, name, st, None), st)  # noqa: E731
        rows, cols = [ex.to_array(get(k), st) for k in ("row_indices", "col_indices")]
        data = [ex.to_array(v, st) for v in ex.items(get("tie_data"), st)]
        ok = rows.ndim == 1 and cols.ndim == 1 and len(data) == self.count and all(v.ndim == 2 for v in data)
        ex.oblige("type", ok, st, node, "one-dimensional axes and one two-dimensional array per data set")
        if not ok:
            return
        y, x = "y" in self.cfg["dims"], "x" in self.cfg["dims"]
        rC, rH = self.reader(ex, self.C), self.reader(ex, self.HC)
        left, right = cmp("!=", rC(st, 0), rH(st, 0)), cmp("!=", rC(st, sub(self.m, 1)), rH(st, sub(self.HC.shape[0], 1)))
        height = self.P(Z(self.N)) if y else self.n
        width = add(add(self.m, one(left)), one(right)) if x else self.m
        ex.oblige("shape", eq(rows.shape[0], height), st, node, "one row index per tie row")
        ex.oblige("shape", eq(cols.shape[0], width), st, node, "one column index per tie column")
        for k, v in enumerate(data):
            ex.oblige("shape", eq(v.shape[0], height), st, node, "rows of data set %d" % k)
            ex.oblige("shape", eq(v.shape[1], width), st, node, "columns of data set %d" % k)
        self.contents(ex, rows, cols, data, left, right, width, st, node, x, y)

    def contents(self, ex, rows, cols, data, left, right, width, st, node, x, y):
        rR, rC, rH = self.rR, self.reader(ex, self.C), self.reader(ex, self.HC)
        s2 = st.copy()
        j = fresh("col")
        s2.pc += [cmp("<=", 0, j), cmp("<", j, width)]
        w = []           # (column of the tie points, weight)
        last = sub(self.m, 1)
        # -- columns: which tie columns a column comes from
        if x:
            first_c, last_c = rH(s2, 0), rH(s2, sub(self.HC.shape[0], 1))
            off = one(left)
            cases = [("extra column before", band(left, cmp("==", j, 0)), first_c, (0, 1)),
                     ("tie column", band(cmp("<=", off, j), cmp("<", j, add(off, self.m))), None, None),
                     ("extra column after", band(right, cmp("==", j, add(off, self.m))), last_c, (sub(last, 1), last))]
        else:
            off = 0
            cases = [("tie column", True, None, None)]
        for what, cond, at, ties in cases:
            s3 = s2.copy()
            s3.pc.append(Z(cond))
            if core.decide_false(s3.pc):
                continue
            if ties is None:
                jj = sub(j, off)
                w = [(jj, 1)]
                pos = rC(s3, jj)
            else:
                p0, p1 = real(rC(s3, ties[0])), real(rC(s3, ties[1]))
                t = div(sub(real(at), p0), sub(p1, p0))
                w = [(ties[0], sub(1, t)), (ties[1], t)]
                pos = at
            ex.oblige("post", None, s3, node, "the index of an %s" % what, eqs=(ex.read(cols, [j], s3, node, check=False), pos))
            for k, v in enumerate(data):
                self.down(ex, rows, v, self.data[k], j, w, s3, node, "%s, data set %d" % (what, k), y, k == 0 and what == "tie column")
        s4 = s2.copy()
        s4.pc.append(cmp("<", add(j, 1), width))
        ex.oblige("post", cmp("<", ex.read(cols, [j], s4, node, check=False), ex.read(cols, [add(j, 1)], s4, node, check=False)), s4, node, "column indices increase")

    def down(self, ex, rows, v, data, j, w, st, node, what, y, axis_too):
        """The values in column j, a weighted sum of the tie columns w."""
        rR, rd = self.rR, self.reader(ex, data)

        def across(s, i):
            r = 0
            for c, t in w:
                r = add(r, mul(t, real(rd(s, i, c))))
            return r
        if not y:
            s2 = st.copy()
            i = fresh("row")
            s2.pc += [cmp("<=", 0, i), cmp("<", i, self.n)]
            if axis_too:
                ex.oblige("post", None, s2, node, "the row indices are kept", eqs=(ex.read(rows, [i], s2, node, check=False), rR(s2, i)))
            ex.oblige("post", None, s2, node, "values (%s)" % what, eqs=(ex.read(v, [i, j], s2, node, check=False), across(s2, i)))
            return
        s2 = st.copy()
        k, q = fresh("chunk"), fresh("q")
        L = self.size(rR, st)
        s2.pc += [cmp("<=", 0, k), cmp("<", k, self.N), cmp("<=", 0, q), cmp("<", q, L(k))]
        a, b = self.first(Z(k)), self.first(Z(add(k, 1)))
        m, before, after = self.piece(rR, s2, k)
        off, i = one(before), add(self.P(Z(k)), q)
        top, bottom = self.row(k, 0), self.row(k, sub(self.S, 1))
        ex.hints = dict(self.hints, piece=[(k, q)])
        for name, cond, at, ties in [("extra row before", band(before, cmp("==", q, 0)), top, (a, add(a, 1))),
                                     ("tie row", band(cmp("<=", off, q), cmp("<", q, add(off, m))), None, None),
                                     ("extra row after", band(after, cmp("==", q, add(off, m))), bottom, (sub(b, 2), sub(b, 1)))]:
            s3 = s2.copy()
            s3.pc.append(Z(cond))
            if core.decide_false(s3.pc):
                continue
            if ties is None:
                ii = add(a, sub(q, off))
                pos, want = rR(s3, ii), across(s3, ii)
            else:
                p0, p1 = real(rR(s3, ties[0])), real(rR(s3, ties[1]))
                t = div(sub(real(at), p0), sub(p1, p0))
                pos, want = at, add(mul(sub(1, t), across(s3, ties[0])), mul(t, across(s3, ties[1])))
            if axis_too:
                ex.oblige("post", None, s3, node, "the index of an %s" % name, eqs=(ex.read(rows, [i], s3, node, check=False), pos))
            ex.oblige("post", None, s3, node, "values in an %s (%s)" % (name, what), eqs=(ex.read(v, [i, j], s3, node, check=False), want))
        if axis_too:
            s4 = s2.copy()
            s4.pc.append(cmp("<", add(q, 1), L(k)))
            ex.hints = dict(self.hints, piece=[(k, q), (k, add(q, 1))])
            ex.oblige("post", cmp("<", ex.read(rows, [i], s4, node, check=False), ex.read(rows, [add(i, 1)], s4, node, check=False)), s4, node, "row indices increase in a chunk")
            s5 = s2.copy()
            s5.pc += [cmp("<", add(k, 1), self.N), eq(add(q, 1), L(k))]
            if not core.decide_false(s5.pc):
                ex.hints = dict(self.hints, piece=[(k, q), (add(k, 1), 0)])
                ex.oblige("post", cmp("<", ex.read(rows, [i], s5, node, check=False), ex.read(rows, [self.P(Z(add(k, 1)))], s5, node, check=False)), s5, node, "row indices increase from chunk to chunk")
        ex.hints = dict(self.hints)


INTERNAL = []
API = [Fill()]
